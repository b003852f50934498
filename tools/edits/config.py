cc = "instructions/partner/ix_create_config.rs"
cf = "state/config.rs"
fp = "params/fee_parameters.rs"
rl = "base_fee/fee_rate_limiter.rs"
du = "utils/damm_v2_utils.rs"
tk = "utils/token.rs"
M("curve check starts late", "C17", (cc, "for i in 1..curve_length {", "for i in 2..curve_length {"))
M("curve check non strict", "C17", (cc, "self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price\n", "self.curve[i].sqrt_price >= self.curve[i - 1].sqrt_price\n"))
M("migration fee 100", "C17", (cc, "self.fee_percentage <= MAX_MIGRATION_FEE_PERCENTAGE", "self.fee_percentage <= MAX_MIGRATION_FEE_PERCENTAGE + 1"))
M("vesting not checked for v2 creator", "C17", (cc, '''                self.creator_liquidity_vesting_info
                    .validate(current_timestamp)?;
''', '''                self.creator_liquidity_vesting_info
                    .validate(current_timestamp)
                    .ok();
'''))
M("limiter collect mode", "C17", (rl, "collect_fee_mode == CollectFeeMode::QuoteToken,", "collect_fee_mode == CollectFeeMode::QuoteToken || self.is_zero_rate_limiter(),"))
M("dynamic fee decays", "C17", (fp, "self.filter_period < self.decay_period", "self.filter_period <= self.decay_period"))
M("creation fee max off", "C17", (cc, "                self.pool_creation_fee >= MIN_POOL_CREATION_FEE\n                    && self", "                self.pool_creation_fee >= MIN_POOL_CREATION_FEE\n                    || self"))
M("ext list", "C17", (tk, "if e != ExtensionType::MetadataPointer && e != ExtensionType::TokenMetadata {", "if e != ExtensionType::MetadataPointer && e != ExtensionType::TokenMetadata && e != ExtensionType::MintCloseAuthority {"))
M("supply without vesting", "C33", (cc, '''            let minimum_base_supply_without_buffer = PoolConfig::get_total_token_supply(
                swap_base_amount,
                included_protocol_fee_migration_base_amount,
                &locked_vesting,''', '''            let minimum_base_supply_without_buffer = PoolConfig::get_total_token_supply(
                swap_base_amount,
                included_protocol_fee_migration_base_amount,
                &LockedVestingParams::default(),'''))
M("swapped lp", "C33", (cc, '''        partner_permanent_locked_liquidity_percentage,
        partner_liquidity_percentage,
        creator_permanent_locked_liquidity_percentage,
        creator_liquidity_percentage,
        &locked_vesting,''', '''        partner_permanent_locked_liquidity_percentage,
        partner_liquidity_percentage,
        creator_liquidity_percentage,
        creator_permanent_locked_liquidity_percentage,
        &locked_vesting,'''))
M("locked at start", "C33", (cc, "get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?", "get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY / 24)?"))
M("curve last point dropped", "C33", (cf, '''        for i in 0..curve.len() {
            self.curve[i] = curve[i].to''', '''        for i in 0..curve.len().min(MAX_CURVE_POINT_CONFIG - 5) {
            self.curve[i] = curve[i].to'''))
M("bps locked ignores creator vesting", "C33", (cf, '''        let creator_vested_locked_liquidity_bps = self
            .creator_liquidity_vesting_info
''', '''        let creator_vested_locked_liquidity_bps = self
            .partner_liquidity_vesting_info
'''))
S("windows", "C17", (cc, '''        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }''', '''        for pair in self.curve.windows(2) {
            require!(
                pair[1].sqrt_price > pair[0].sqrt_price && pair[1].liquidity > 0,
                PoolError::InvalidCurve
            );
        }'''))
S("while prev", "C17", (cc, '''        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }''', '''        let mut previous = self.curve[0].sqrt_price;
        for point in self.curve.iter().skip(1) {
            require!(
                point.sqrt_price > previous && point.liquidity > 0,
                PoolError::InvalidCurve
            );
            previous = point.sqrt_price;
        }'''))
S("helper curve", "C17 C33", (cc, '''        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }''', '''        let mut i = 0;
        while i + 1 < curve_length {
            let (a, b) = (&self.curve[i], &self.curve[i + 1]);
            if b.liquidity == 0 || b.sqrt_price <= a.sqrt_price {
                return Err(PoolError::InvalidCurve.into());
            }
            i += 1;
        }'''))
S("early vesting", "C17 C33", (cc, '''        if self.has_vesting() {
            let total_amount = self.get_total_amount()?;
            require!(
                self.frequency != 0 && total_amount != 0,
                PoolError::InvalidVestingParameters
            );
        }
        Ok(())''', '''        if !self.has_vesting() {
            return Ok(());
        }
        let total_amount = self.get_total_amount()?;
        require!(self.frequency > 0, PoolError::InvalidVestingParameters);
        require!(total_amount > 0, PoolError::InvalidVestingParameters);
        Ok(())'''))
S("quote mint all", "C17", (tk, '''    for e in extensions {
        if e != ExtensionType::MetadataPointer && e != ExtensionType::TokenMetadata {
            return Ok(false);
        }
    }
    Ok(true)''', '''    for e in extensions.iter() {
        match e {
            ExtensionType::MetadataPointer | ExtensionType::TokenMetadata => {}
            _ => return Ok(false),
        }
    }
    Ok(true)'''))
S("init zip", "C33 C17", (cf, '''        for i in 0..curve.len() {
            self.curve[i] = curve[i].to_liquidity_distribution_config();
        }''', '''        for (i, point) in curve.iter().enumerate() {
            self.curve[i] = point.to_liquidity_distribution_config();
        }'''))
S("windows2", "C17", (cc, """        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }""", """        for (a, b) in self.curve.iter().zip(self.curve.iter().skip(1)) {
            require!(
                b.sqrt_price > a.sqrt_price && b.liquidity > 0,
                PoolError::InvalidCurve
            );
        }"""))
S("all", "C17", (cc, """        for i in 1..curve_length {
            require!(
                self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price
                    && self.curve[i].liquidity > 0,
                PoolError::InvalidCurve
            );
        }""", """        let mut rising = true;
        for i in 1..curve_length {
            let above = self.curve[i].sqrt_price > self.curve[i - 1].sqrt_price;
            rising = rising && above && self.curve[i].liquidity > 0;
        }
        require!(rising, PoolError::InvalidCurve);"""))
