# wide behaviour-preserving refactorings of configuration, launch, migration and protocol code; run together: tools/mutate.py -c ref_c.py
cc = "instructions/partner/ix_create_config.rs"
st = "state/config.rs"
ld = "params/liquidity_distribution.rs"
S("curve check by windows", "C17", (cc, '''        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }

        // the last price in curve must be smaller than or equal max price
        require!(
            self.curve[curve_length - 1].sqrt_price <= MAX_SQRT_PRICE,
            PoolError::InvalidCurve
        );
''', '''        require!(
            self.curve
                .windows(2)
                .all(|pair| pair[0].sqrt_price < pair[1].sqrt_price && pair[1].liquidity > 0),
            PoolError::InvalidCurve
        );

        // the last price in curve must be smaller than or equal max price
        if let Some(last) = self.curve.last() {
            require!(last.sqrt_price <= MAX_SQRT_PRICE, PoolError::InvalidCurve);
        }
'''), (cc, '''        if self.pool_creation_fee > 0 {
            require!(
                self.pool_creation_fee >= MIN_POOL_CREATION_FEE
                    && self.pool_creation_fee <= MAX_POOL_CREATION_FEE,
                PoolError::InvalidPoolCreationFee
            )
        }
''', '''        require!(
            self.pool_creation_fee == 0
                || (MIN_POOL_CREATION_FEE..=MAX_POOL_CREATION_FEE).contains(&self.pool_creation_fee),
            PoolError::InvalidPoolCreationFee
        );
'''), (cc, '''            self.token_decimal >= 6 && self.token_decimal <= 9,
''', '''            matches!(self.token_decimal, 6..=9),
'''), (cc, '''        let sum_liquidity_percentage = self
            .partner_liquidity_percentage
            .safe_add(self.partner_permanent_locked_liquidity_percentage)?
            .safe_add(self.creator_liquidity_percentage)?
            .safe_add(self.creator_permanent_locked_liquidity_percentage)?
            .safe_add(self.partner_liquidity_vesting_info.vesting_percentage)?
            .safe_add(self.creator_liquidity_vesting_info.vesting_percentage)?;
        require!(
            sum_liquidity_percentage == 100,
            PoolError::InvalidFeePercentage
        );
''', '''        let partner_share = self
            .partner_liquidity_percentage
            .safe_add(self.partner_permanent_locked_liquidity_percentage)?
            .safe_add(self.partner_liquidity_vesting_info.vesting_percentage)?;
        let creator_share = self
            .creator_liquidity_percentage
            .safe_add(self.creator_permanent_locked_liquidity_percentage)?
            .safe_add(self.creator_liquidity_vesting_info.vesting_percentage)?;
        require!(
            partner_share.safe_add(creator_share)? == 100,
            PoolError::InvalidFeePercentage
        );
'''), (cc, '''        if self.fee_percentage == 0 {
            require!(
                self.creator_fee_percentage == 0,
                PoolError::InvalidMigratorFeePercentage
            );
        } else {
            require!(
                self.creator_fee_percentage <= 100,
                PoolError::InvalidMigratorFeePercentage
            );
        }
''', '''        let max_creator_fee_percentage = if self.fee_percentage > 0 { 100 } else { 0 };
        require!(
            self.creator_fee_percentage <= max_creator_fee_percentage,
            PoolError::InvalidMigratorFeePercentage
        );
'''), (cc, '''        let migrated_collect_fee_mode = MigratedCollectFeeMode::try_from(self.collect_fee_mode)
            .map_err(|_| PoolError::InvalidCollectFeeMode)?;

        match migrated_collect_fee_mode {
            MigratedCollectFeeMode::Compounding => {
                require!(
                    self.compounding_fee_bps > 0 && self.compounding_fee_bps <= MAX_BASIS_POINT,
                    PoolError::InvalidMigratedPoolFee
                );
            }
            _ => {
                require!(
                    self.compounding_fee_bps == 0,
                    PoolError::InvalidMigratedPoolFee
                );
            }
        }
''', '''        let migrated_collect_fee_mode = MigratedCollectFeeMode::try_from(self.collect_fee_mode)
            .map_err(|_| PoolError::InvalidCollectFeeMode)?;
        let is_compounding = migrated_collect_fee_mode == MigratedCollectFeeMode::Compounding;
        require!(
            is_compounding == (self.compounding_fee_bps != 0)
                && self.compounding_fee_bps <= MAX_BASIS_POINT,
            PoolError::InvalidMigratedPoolFee
        );
'''))
S("vesting and supply", "C18", (cc, '''    pub fn has_vesting(&self) -> bool {
        *self != LockedVestingParams::default()
    }
    pub fn validate(&self) -> Result<()> {
        if self.has_vesting() {
            let total_amount = self.get_total_amount()?;
            require!(
                self.frequency != 0 && total_amount != 0,
                PoolError::InvalidVestingParameters
            );
        }
        Ok(())
    }
''', '''    pub fn has_vesting(&self) -> bool {
        self.amount_per_period != 0
            || self.cliff_duration_from_migration_time != 0
            || self.frequency != 0
            || self.number_of_period != 0
            || self.cliff_unlock_amount != 0
    }
    pub fn validate(&self) -> Result<()> {
        if !self.has_vesting() {
            return Ok(());
        }
        require!(self.frequency > 0, PoolError::InvalidVestingParameters);
        require!(
            self.get_total_amount()? > 0,
            PoolError::InvalidVestingParameters
        );
        Ok(())
    }
'''), (cc, '''        let total_amount = self
            .cliff_unlock_amount
            .safe_add(self.amount_per_period.safe_mul(self.number_of_period)?)?;
        Ok(total_amount)
''', '''        let periodic = self.number_of_period.safe_mul(self.amount_per_period)?;
        Ok(periodic.safe_add(self.cliff_unlock_amount)?)
'''), (cc, '''    let (fixed_token_supply_flag, pre_migration_token_supply, post_migration_token_supply) =
        if let Some(TokenSupplyParams {
            pre_migration_token_supply,
            post_migration_token_supply,
        }) = token_supply
        {
''', '''    let (fixed_token_supply_flag, pre_migration_token_supply, post_migration_token_supply) =
        if let Some(supply) = token_supply.as_ref() {
            let pre_migration_token_supply = supply.pre_migration_token_supply;
            let post_migration_token_supply = supply.post_migration_token_supply;
'''), (cc, '''            require!(
                minimum_base_supply_without_buffer <= post_migration_token_supply
                    && post_migration_token_supply <= pre_migration_token_supply
                    && minimum_base_supply_with_buffer <= pre_migration_token_supply,
                PoolError::InvalidTokenSupply
            );
''', '''            require!(
                post_migration_token_supply >= minimum_base_supply_without_buffer,
                PoolError::InvalidTokenSupply
            );
            require!(
                pre_migration_token_supply
                    >= post_migration_token_supply.max(minimum_base_supply_with_buffer),
                PoolError::InvalidTokenSupply
            );
'''), (cc, '''    require!(
        migration_sqrt_price < MAX_SQRT_PRICE,
        PoolError::InvalidCurve
    );

    let swap_base_amount_256 =
        get_base_token_for_swap(sqrt_start_price, migration_sqrt_price, &curve)?;
    let swap_base_amount: u64 = swap_base_amount_256
        .try_into()
        .map_err(|_| PoolError::TypeCastFailed)?;
''', '''    if migration_sqrt_price >= MAX_SQRT_PRICE {
        return err!(PoolError::InvalidCurve);
    }

    let swap_base_amount: u64 =
        get_base_token_for_swap(sqrt_start_price, migration_sqrt_price, &curve)?
            .try_into()
            .map_err(|_| PoolError::TypeCastFailed)?;
'''), (cc, '''    require!(
        config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?
            >= MIN_LOCKED_LIQUIDITY_BPS,
        PoolError::InvalidMigrationLockedLiquidity
    );

    emit_cpi!(EvtCreateConfig {''', '''    let locked_bps = config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?;
    require_gte!(
        locked_bps,
        MIN_LOCKED_LIQUIDITY_BPS,
        PoolError::InvalidMigrationLockedLiquidity
    );

    emit_cpi!(EvtCreateConfig {'''))
S("config amounts", "C12", (st, '''            for i in 0..MAX_CURVE_POINT_CONFIG {
                if self.curve[i].liquidity == 0 {
                    break;
                }
                curve.push(self.curve[i].to_liquidity_distribution_parameters());
            }
''', '''            for point in self.curve.iter() {
                if point.liquidity == 0 {
                    break;
                }
                curve.push(point.to_liquidity_distribution_parameters());
            }
'''), (st, '''        for i in 0..curve.len() {
            self.curve[i] = curve[i].to_liquidity_distribution_config();
        }
''', '''        for (slot, point) in self.curve.iter_mut().zip(curve.iter()) {
            *slot = point.to_liquidity_distribution_config();
        }
'''), (st, '''        let quote_amount: u64 = safe_mul_div_cast_u64(
            migration_quote_threshold,
            100.safe_sub(migration_fee_percentage.into())?,
            100,
            Rounding::Up,
        )?;
        let fee = migration_quote_threshold.safe_sub(quote_amount)?;
        Ok(MigrationAmount { quote_amount, fee })
''', '''        let kept_percentage: u64 = 100u64.safe_sub(u64::from(migration_fee_percentage))?;
        let quote_amount = safe_mul_div_cast_u64(
            kept_percentage,
            migration_quote_threshold,
            100,
            Rounding::Up,
        )?;
        Ok(MigrationAmount {
            quote_amount,
            fee: migration_quote_threshold.safe_sub(quote_amount)?,
        })
'''), (st, '''        if U256::from(swap_amount_buffer) < max_base_amount_on_curve {
            Ok(u64::try_from(swap_amount_buffer).map_err(|_| PoolError::MathOverflow)?)
        } else {
            Ok(max_base_amount_on_curve
                .try_into()
                .map_err(|_| PoolError::MathOverflow)?)
        }
''', '''        let swap_amount = U256::from(swap_amount_buffer).min(max_base_amount_on_curve);
        Ok(swap_amount
            .try_into()
            .map_err(|_| PoolError::MathOverflow)?)
'''), (st, '''        // early return
        if self.creator_trading_fee_percentage == 0 {
            return Ok(PartnerAndCreatorSplitFee {
                partner_fee: fee,
                creator_fee: 0,
            });
        }
''', ''), (st, '''        if self.is_fixed_token_supply() {
            Ok(self
                .pre_migration_token_supply
                .safe_sub(self.post_migration_token_supply)?)
        } else {
            Ok(u64::MAX)
        }
''', '''        if !self.is_fixed_token_supply() {
            return Ok(u64::MAX);
        }
        Ok(self
            .pre_migration_token_supply
            .safe_sub(self.post_migration_token_supply)?)
'''), (st, '''        let creator_liquidity = liquidity
            .safe_sub(partner_liquidity)?
            .safe_sub(partner_permanent_locked_liquidity)?
            .safe_sub(partner_vested_liquidity)?
            .safe_sub(creator_permanent_locked_liquidity)?
            .safe_sub(creator_vested_liquidity)?;
''', '''        let partner_total = partner_liquidity
            .safe_add(partner_permanent_locked_liquidity)?
            .safe_add(partner_vested_liquidity)?;
        let creator_locked =
            creator_permanent_locked_liquidity.safe_add(creator_vested_liquidity)?;
        let creator_liquidity = liquidity
            .safe_sub(partner_total)?
            .safe_sub(creator_locked)?;
'''), (st, '''        let total_locked_liquidity_bps_at_n_seconds = partner_vested_locked_liquidity_bps
            .safe_add(partner_permanent_locked_liquidity_bps)?
            .safe_add(creator_vested_locked_liquidity_bps)?
            .safe_add(creator_permanent_locked_liquidity_bps)?;

        Ok(total_locked_liquidity_bps_at_n_seconds)
''', '''        let total = [
            partner_permanent_locked_liquidity_bps,
            creator_vested_locked_liquidity_bps,
            creator_permanent_locked_liquidity_bps,
        ]
        .iter()
        .try_fold(partner_vested_locked_liquidity_bps, |total, part| {
            total.safe_add(*part)
        })?;
        Ok(total)
'''), (st, '''        if total_locked_percentage == 0 {
            // both vesting_percentage and permanent_locked_liquidity_percentage are equal zero
            self.unlocked_liquidity = adjusted_total_liquidity;
            self.permanent_locked_liquidity = 0;
            self.vested_liquidity = 0;
        } else {
            let unlocked_liquidity = adjusted_total_liquidity.min(self.unlocked_liquidity);
            let liquidity_subject_to_lock =
                adjusted_total_liquidity.safe_sub(unlocked_liquidity)?;
''', '''        if total_locked_percentage == 0 {
            (
                self.unlocked_liquidity,
                self.permanent_locked_liquidity,
                self.vested_liquidity,
            ) = (adjusted_total_liquidity, 0, 0);
        } else {
            let (unlocked_liquidity, liquidity_subject_to_lock) =
                if adjusted_total_liquidity > self.unlocked_liquidity {
                    (
                        self.unlocked_liquidity,
                        adjusted_total_liquidity.safe_sub(self.unlocked_liquidity)?,
                    )
                } else {
                    (adjusted_total_liquidity, 0)
                };
'''))
S("curve walks", "C08", (ld, '''    let mut total_amount = U256::ZERO;
    for i in 0..curve.len() {
        let lower_sqrt_price = if i == 0 {
            sqrt_start_price
        } else {
            curve[i - 1].sqrt_price
        };
        if curve[i].sqrt_price > sqrt_migration_price {
            let delta_amount = get_delta_amount_base_unsigned_256(
                lower_sqrt_price,
                sqrt_migration_price,
                curve[i].liquidity,
                Rounding::Up, // TODO check whether we should use round down or round up
            )?;
            total_amount = total_amount.safe_add(delta_amount)?;
            break;
        } else {
            let delta_amount = get_delta_amount_base_unsigned_256(
                lower_sqrt_price,
                curve[i].sqrt_price,
                curve[i].liquidity,
                Rounding::Up, // TODO check whether we should use round down or round up
            )?;
            total_amount = total_amount.safe_add(delta_amount)?;
        }
    }
    Ok(total_amount)
''', '''    let mut total_amount = U256::ZERO;
    let mut lower_sqrt_price = sqrt_start_price;
    for point in curve.iter() {
        let is_last = point.sqrt_price > sqrt_migration_price;
        let upper_sqrt_price = if is_last {
            sqrt_migration_price
        } else {
            point.sqrt_price
        };
        total_amount = total_amount.safe_add(get_delta_amount_base_unsigned_256(
            lower_sqrt_price,
            upper_sqrt_price,
            point.liquidity,
            Rounding::Up,
        )?)?;
        if is_last {
            break;
        }
        lower_sqrt_price = point.sqrt_price;
    }
    Ok(total_amount)
'''))
ib, it = "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs"
for f, kind in ((ib, "SplToken"), (it, "Token2022")):
    S("launch " + kind, "C12", (f, '''    require!(
        config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?
            >= MIN_LOCKED_LIQUIDITY_BPS,
        PoolError::InvalidMigrationLockedLiquidity
    );
''', '''    let locked_bps = config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?;
    if locked_bps < MIN_LOCKED_LIQUIDITY_BPS {
        return Err(PoolError::InvalidMigrationLockedLiquidity.into());
    }
'''), (f, '''    let token_type_value =
        TokenType::try_from(config.token_type).map_err(|_| PoolError::InvalidTokenType)?;
    require!(
        token_type_value == TokenType::%s,
        PoolError::InvalidTokenType
    );
''' % kind, '''    require!(
        matches!(TokenType::try_from(config.token_type), Ok(TokenType::%s)),
        PoolError::InvalidTokenType
    );
''' % kind), (f, '''    if config.pool_creation_fee > 0 {
        transfer_lamports_from_user(
            ctx.accounts.payer.to_account_info(),
            ctx.accounts.pool.to_account_info(),
            ctx.accounts.system_program.to_account_info(),
            config.pool_creation_fee,
        )?;
    }
''', '''    let creation_fee = config.pool_creation_fee;
    if creation_fee != 0 {
        let payer = ctx.accounts.payer.to_account_info();
        let pool_ai = ctx.accounts.pool.to_account_info();
        let system_program = ctx.accounts.system_program.to_account_info();
        transfer_lamports_from_user(payer, pool_ai, system_program, creation_fee)?;
    }
'''))
S("authorities", "C13", (st, '''        match *self {
            TokenAuthorityOption::CreatorUpdateAndMintAuthority
            | TokenAuthorityOption::CreatorUpdateAuthority => Some(creator),

            TokenAuthorityOption::PartnerUpdateAndMintAuthority
            | TokenAuthorityOption::PartnerUpdateAuthority => Some(partner),
            TokenAuthorityOption::Immutable => None,
        }
''', '''        if *self == TokenAuthorityOption::Immutable {
            return None;
        }
        let is_creator = matches!(
            *self,
            TokenAuthorityOption::CreatorUpdateAndMintAuthority
                | TokenAuthorityOption::CreatorUpdateAuthority
        );
        Some(if is_creator { creator } else { partner })
'''), ("instructions/initialize_pool/process_create_token_metadata.rs", '''    let token_update_authority = token_update_authority.unwrap_or(params.system_program.key());
''', '''    let token_update_authority = match token_update_authority {
        Some(authority) => authority,
        None => params.system_program.key(),
    };
'''))
S("locker", "C14", ("instructions/migration/create_locker.rs", '''    require!(
        virtual_pool.get_migration_progress()? == MigrationProgress::PostBondingCurve,
        PoolError::NotPermitToDoThisAction
    );
''', '''    match virtual_pool.get_migration_progress()? {
        MigrationProgress::PostBondingCurve => {}
        _ => return err!(PoolError::NotPermitToDoThisAction),
    }
'''), (cc, '''        let cliff_time =
            finish_curve_timestamp.saturating_add(self.cliff_duration_from_migration_time);
        Ok(CreateVestingEscrowParameters {
            vesting_start_time: finish_curve_timestamp,
            cliff_time,
''', '''        Ok(CreateVestingEscrowParameters {
            vesting_start_time: finish_curve_timestamp,
            cliff_time: self
                .cliff_duration_from_migration_time
                .saturating_add(finish_curve_timestamp),
'''))
S("damm v1 lock", "C20", ("instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs", '''    let liquidity_token_to_lock = match (is_partner, is_creator) {
        (true, true) => migration_metadata.lock_as_self_partnered_creator()?,
        (true, false) => migration_metadata.lock_as_partner()?,
        (false, true) => migration_metadata.lock_as_creator()?,
        (false, false) => return Err(PoolError::InvalidOwnerAccount.into()),
    };
''', '''    require!(is_partner || is_creator, PoolError::InvalidOwnerAccount);
    let liquidity_token_to_lock = if is_partner && is_creator {
        migration_metadata.lock_as_self_partnered_creator()
    } else if is_partner {
        migration_metadata.lock_as_partner()
    } else {
        migration_metadata.lock_as_creator()
    }?;
'''))
S("withdrawals", "C09", ("instructions/migration/ix_withdraw_migration_fee.rs", '''    let fee = if sender_flag == SenderFlag::Partner {
        require!(
            ctx.accounts.sender.key() == config.fee_claimer,
            PoolError::NotPermitToDoThisAction
        );
        let mask = PARTNER_MIGRATION_FEE_MASK;
        // Ensure the partner has never been withdrawn
        require!(
            pool.eligible_to_withdraw_migration_fee(mask),
            PoolError::MigrationFeeHasBeenWithdraw
        );
        // update partner withdraw migration fee
        pool.update_withdraw_migration_fee(mask);
        partner_migration_fee
    } else {
        require!(
            ctx.accounts.sender.key() == pool.creator,
            PoolError::NotPermitToDoThisAction
        );
        let mask = CREATOR_MIGRATION_FEE_MASK;
        // Ensure the creator has never been withdrawn
        require!(
            pool.eligible_to_withdraw_migration_fee(mask),
            PoolError::MigrationFeeHasBeenWithdraw
        );
        // update creator withdraw migration fee
        pool.update_withdraw_migration_fee(mask);
        creator_migration_fee
    };
''', '''    let (expected_sender, mask, fee) = match sender_flag {
        SenderFlag::Partner => (
            config.fee_claimer,
            PARTNER_MIGRATION_FEE_MASK,
            partner_migration_fee,
        ),
        SenderFlag::Creator => (
            pool.creator,
            CREATOR_MIGRATION_FEE_MASK,
            creator_migration_fee,
        ),
    };
    require_keys_eq!(
        ctx.accounts.sender.key(),
        expected_sender,
        PoolError::NotPermitToDoThisAction
    );
    require!(
        pool.eligible_to_withdraw_migration_fee(mask),
        PoolError::MigrationFeeHasBeenWithdraw
    );
    pool.update_withdraw_migration_fee(mask);
'''), ("instructions/migration/withdraw_leftover.rs", '''    let leftover_amount = ctx
        .accounts
        .base_vault
        .amount
        .safe_sub(virtual_pool.get_protocol_and_trading_base_fee()?)?
        .safe_sub(virtual_pool.protocol_migration_base_fee_amount)?;
''', '''    let owed = virtual_pool
        .get_protocol_and_trading_base_fee()?
        .safe_add(virtual_pool.protocol_migration_base_fee_amount)?;
    let leftover_amount = ctx.accounts.base_vault.amount.safe_sub(owed)?;
'''), ("instructions/creator/ix_withdraw_creator_surplus.rs", '''    let total_surplus = pool.get_total_surplus(config.migration_quote_threshold)?;
    let creator_surplus_amount = pool.get_creator_surplus(&config, total_surplus)?;

    transfer_token''', '''    pool.update_creator_withdraw_surplus();
    let creator_surplus_amount = pool
        .get_total_surplus(config.migration_quote_threshold)
        .and_then(|total_surplus| pool.get_creator_surplus(&config, total_surplus))?;

    transfer_token'''), ("instructions/creator/ix_withdraw_creator_surplus.rs", '''    // update creator withdraw surplus
    pool.update_creator_withdraw_surplus();

    emit''', '''    emit'''))
z = "instructions/operator/ix_zap_protocol_fee.rs"
S("zap", "C23", (z, '''        !MINTS_DISALLOWED_TO_ZAP_OUT.contains(&ctx.accounts.token_mint.key().to_bytes()),
''', '''        MINTS_DISALLOWED_TO_ZAP_OUT
            .iter()
            .all(|mint| *mint != ctx.accounts.token_mint.key().to_bytes()),
'''), (z, '''    let (amount, treasury_paired_destination_token_address) = if is_withdrawing_base {
        let base_amount = pool.claim_protocol_base_fee(max_amount)?;

        let treasury_token_quote_address = get_associated_token_address_with_program_id(
            &treasury::ID,
            &config.quote_mint,
            &get_token_program_from_flag(config.quote_token_flag)?,
        );
        (base_amount, treasury_token_quote_address)
    } else {
        let quote_amount = pool
            .claim_protocol_quote_fee_and_surplus(max_amount, config.migration_quote_threshold)?;

        let treasury_token_base_address = get_associated_token_address_with_program_id(
            &treasury::ID,
            &pool.base_mint,
            &get_token_program_from_flag(pool.pool_type)?,
        );
        (quote_amount, treasury_token_base_address)
    };
''', '''    let amount = if is_withdrawing_base {
        pool.claim_protocol_base_fee(max_amount)?
    } else {
        pool.claim_protocol_quote_fee_and_surplus(max_amount, config.migration_quote_threshold)?
    };
    let (paired_mint, paired_flag) = if is_withdrawing_base {
        (config.quote_mint, config.quote_token_flag)
    } else {
        (pool.base_mint, pool.pool_type)
    };
    let treasury_paired_destination_token_address = get_associated_token_address_with_program_id(
        &treasury::ID,
        &paired_mint,
        &get_token_program_from_flag(paired_flag)?,
    );
'''))
m2 = "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"
S("damm v2", "C19", (m2, '''    let (
        first_position_liquidity_distribution,
        // we need mut to adjust second_position_liquidity_distribution later
        mut second_position_liquidity_distribution,
        first_position_owner,
        second_position_owner,
    ) = if partner_liquidity_distribution.get_total_liquidity()?
        > creator_liquidity_distribution.get_total_liquidity()?
    {
        (
            partner_liquidity_distribution,
            creator_liquidity_distribution,
            config.fee_claimer,
            virtual_pool.creator,
        )
    } else {
        (
            creator_liquidity_distribution,
            partner_liquidity_distribution,
            virtual_pool.creator,
            config.fee_claimer,
        )
    };
''', '''    let partner_total = partner_liquidity_distribution.get_total_liquidity()?;
    let creator_total = creator_liquidity_distribution.get_total_liquidity()?;
    let is_partner_first = creator_total < partner_total;
    let (first_position_liquidity_distribution, mut second_position_liquidity_distribution) =
        if is_partner_first {
            (partner_liquidity_distribution, creator_liquidity_distribution)
        } else {
            (creator_liquidity_distribution, partner_liquidity_distribution)
        };
    let (first_position_owner, second_position_owner) = if is_partner_first {
        (config.fee_claimer, virtual_pool.creator)
    } else {
        (virtual_pool.creator, config.fee_claimer)
    };
'''), (m2, '''        let mut called_functions: Vec<Box<dyn Fn() -> Result<()>>> = vec![];

        if liquidity_distribution.permanent_locked_liquidity > 0 {
            called_functions.push(Box::new(move || {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
''', '''        let mut called_functions: Vec<Box<dyn Fn() -> Result<()>>> = Vec::with_capacity(2);

        if liquidity_distribution.permanent_locked_liquidity != 0 {
            called_functions.push(Box::new(move || {
                let pool_authority_seeds = pool_authority_seeds!(BUMP);
'''), (m2, '''        let Some(second_position) = ctx
            .accounts
            .second_position
            .as_ref()
            .map(|acc| acc.to_account_info())
        else {
            return Err(PoolError::InvalidAccount.into());
        };
''', '''        let second_position = ctx
            .accounts
            .second_position
            .as_ref()
            .ok_or(PoolError::InvalidAccount)?
            .to_account_info();
'''), (m2, '''    let non_burnable_amount =
        protocol_and_partner_base_fee.safe_add(protocol_migration_base_fee)?;

    let left_base_token = ctx
        .accounts
        .base_vault
        .amount
        .safe_sub(non_burnable_amount)?;

    let burnable_amount = config.get_burnable_amount_post_migration(left_base_token)?;
''', '''    let left_base_token = ctx
        .accounts
        .base_vault
        .amount
        .safe_sub(protocol_and_partner_base_fee)?
        .safe_sub(protocol_migration_base_fee)?;

    let burnable_amount = config.get_burnable_amount_post_migration(left_base_token)?;
'''), ("migration_handler/compounding_liquidity.rs", '''        Ok(liquidity_from_base.min(liquidity_from_quote))
''', '''        Ok(if liquidity_from_quote < liquidity_from_base {
            liquidity_from_quote
        } else {
            liquidity_from_base
        })
'''), ("migration_handler/compounding_liquidity.rs", '''            migration_sqrt_price.abs_diff(sqrt_price).safe_mul(100)?
                <= migration_sqrt_price.max(sqrt_price),
''', '''            sqrt_price.abs_diff(migration_sqrt_price).safe_mul(100)?
                <= sqrt_price.max(migration_sqrt_price),
'''), ("migration_handler/compounding_liquidity.rs", '''    let (mut base, rem) = quote.div_rem(price);
    if !rem.is_zero() {
        base = base.safe_add(U256::from(1))?;
    }
''', '''    let base = quote.div_ceil(price);
'''))
