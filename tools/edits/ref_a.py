# wide behaviour-preserving refactorings of the pool's state and arithmetic; run together: tools/mutate.py -c ref_a.py
vp, cv, fe = "state/virtual_pool.rs", "curve.rs", "state/fee.rs"
S("accumulate by reference", "C07", (vp, '''        if is_base_token {
            self.total_protocol_base_fee = self.total_protocol_base_fee.safe_add(protocol_fee)?;
            self.total_trading_base_fee = self.total_trading_base_fee.safe_add(trading_fee)?;
        } else {
            self.total_protocol_quote_fee = self.total_protocol_quote_fee.safe_add(protocol_fee)?;
            self.total_trading_quote_fee = self.total_trading_quote_fee.safe_add(trading_fee)?;
        }

        Ok(())''', '''        let (protocol_total, trading_total) = if is_base_token {
            (&mut self.total_protocol_base_fee, &mut self.total_trading_base_fee)
        } else {
            (&mut self.total_protocol_quote_fee, &mut self.total_trading_quote_fee)
        };
        *trading_total = trading_total.safe_add(trading_fee)?;
        *protocol_total = protocol_total.safe_add(protocol_fee)?;
        Ok(())'''))
S("initialize reordered", "C02", (vp, '''        self.volatility_tracker = volatility_tracker;
        self.config = config;
        self.creator = creator;
        self.base_mint = base_mint;
        self.base_vault = base_vault;
        self.quote_vault = quote_vault;
        self.sqrt_price = sqrt_price;
        self.pool_type = pool_type;
        self.activation_point = activation_point;
        self.base_reserve = base_reserve;
''', '''        self.base_reserve = base_reserve;
        self.activation_point = activation_point;
        self.sqrt_price = sqrt_price;
        self.pool_type = pool_type;
        (self.base_vault, self.quote_vault) = (base_vault, quote_vault);
        self.base_mint = base_mint;
        self.config = config;
        self.creator = creator;
        self.volatility_tracker = volatility_tracker;
'''))
S("fee numerator helper", "C24", (vp, '''    pub fn get_swap_result_from_exact_output(
        &self,''', '''    fn numerator_for_excluded(
        &self,
        config: &PoolConfig,
        point: u64,
        amount: u64,
        direction: TradeDirection,
        min_fee: bool,
    ) -> Result<u64> {
        if !min_fee {
            return config
                .pool_fees
                .get_total_fee_numerator_from_excluded_fee_amount(
                    &self.volatility_tracker,
                    point,
                    self.activation_point,
                    amount,
                    direction,
                );
        }
        config.pool_fees.get_min_base_fee_numerator()
    }

    pub fn get_swap_result_from_exact_output(
        &self,'''),
  (vp, '''            let trade_fee_numerator = if eligible_for_first_swap_with_min_fee {
                config.pool_fees.get_min_base_fee_numerator()?
            } else {
                config
                    .pool_fees
                    .get_total_fee_numerator_from_excluded_fee_amount(
                        &self.volatility_tracker,
                        current_point,
                        self.activation_point,
                        amount_out,
                        trade_direction,
                    )?
            };

            let (included_fee_out_amount, fee_amount) =
                PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, amount_out)?;
''', '''            let (included_fee_out_amount, fee_amount) = PoolFeesConfig::get_included_fee_amount(
                self.numerator_for_excluded(
                    config,
                    current_point,
                    amount_out,
                    trade_direction,
                    eligible_for_first_swap_with_min_fee,
                )?,
                amount_out,
            )?;
'''),
  (vp, '''            let trade_fee_numerator = if eligible_for_first_swap_with_min_fee {
                config.pool_fees.get_min_base_fee_numerator()?
            } else {
                config
                    .pool_fees
                    .get_total_fee_numerator_from_excluded_fee_amount(
                        &self.volatility_tracker,
                        current_point,
                        self.activation_point,
                        amount_in,
                        trade_direction,
                    )?
            };
''', '''            let trade_fee_numerator = self.numerator_for_excluded(
                config,
                current_point,
                amount_in,
                trade_direction,
                eligible_for_first_swap_with_min_fee,
            )?;
'''),
  (vp, '''        let (excluded_fee_input_amount, included_fee_input_amount) = if fee_mode.fees_on_input {
''', '''        let (excluded_fee_input_amount, included_fee_input_amount) = if !fee_mode.fees_on_input {
            (amount_in, amount_in)
        } else {
'''),
  (vp, '''            (amount_in, included_fee_in_amount)
        } else {
            (amount_in, amount_in)
        };
''', '''            (amount_in, included_fee_in_amount)
        };
'''))
S("base to quote out as while", "C14", (vp, '''        // Use curve.len() for backward compatibility for existing pools with 20 points
        for i in (0..config.curve.len() - 1).rev() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                continue;
            }
            if config.curve[i].sqrt_price < current_sqrt_price {
                let max_amount_out = get_delta_amount_quote_unsigned_256(
                    config.curve[i].sqrt_price,
                    current_sqrt_price,
                    config.curve[i + 1].liquidity,
                    Rounding::Down,
                )?;
''', '''        let mut i = config.curve.len() - 1;
        while i > 0 {
            i -= 1;
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                continue;
            }
            let lower = config.curve[i].sqrt_price;
            if lower < current_sqrt_price {
                let max_amount_out = get_delta_amount_quote_unsigned_256(
                    lower,
                    current_sqrt_price,
                    config.curve[i + 1].liquidity,
                    Rounding::Down,
                )?;
'''))
S("quote to base out by iterator", "C14", (vp, '''        for i in 0..config.curve.len() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            if config.curve[i].sqrt_price > current_sqrt_price {
                let max_amount_out = get_delta_amount_base_unsigned_256(
                    current_sqrt_price,
                    config.curve[i].sqrt_price,
                    config.curve[i].liquidity,
                    Rounding::Down,
                )?;
                if U256::from(amount_left) < max_amount_out {
                    let next_sqrt_price = get_next_sqrt_price_from_output(
                        current_sqrt_price,
                        config.curve[i].liquidity,
                        amount_left,
                        false,
                    )?;

                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Up,
                    )?;

                    total_input_amount = total_input_amount.safe_add(input_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;
                } else {
                    let next_sqrt_price = config.curve[i].sqrt_price;
                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Up,
                    )?;
''', '''        for point in config.curve.iter() {
            if point.sqrt_price == 0 || point.liquidity == 0 {
                break;
            }
            if point.sqrt_price > current_sqrt_price {
                let max_amount_out = get_delta_amount_base_unsigned_256(
                    current_sqrt_price,
                    point.sqrt_price,
                    point.liquidity,
                    Rounding::Down,
                )?;
                if U256::from(amount_left) < max_amount_out {
                    let next_sqrt_price = get_next_sqrt_price_from_output(
                        current_sqrt_price,
                        point.liquidity,
                        amount_left,
                        false,
                    )?;

                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        point.liquidity,
                        Rounding::Up,
                    )?;

                    total_input_amount = total_input_amount.safe_add(input_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;
                } else {
                    let next_sqrt_price = point.sqrt_price;
                    let input_amount = get_delta_amount_quote_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        point.liquidity,
                        Rounding::Up,
                    )?;
'''))
S("quote to base in: full step first", "C14", (vp, '''                if U256::from(amount_left) < max_amount_in {
                    let next_sqrt_price = get_next_sqrt_price_from_input(
                        current_sqrt_price,
                        config.curve[i].liquidity,
                        amount_left,
                        false,
                    )?;

                    let output_amount = get_delta_amount_base_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;
                } else {
                    let next_sqrt_price = reference_sqrt_price;
                    let output_amount = get_delta_amount_base_unsigned(
                        current_sqrt_price,
                        next_sqrt_price,
                        config.curve[i].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = amount_left.safe_sub(
                        max_amount_in
                            .try_into()
                            .map_err(|_| PoolError::TypeCastFailed)?,
                    )?;
                    if next_sqrt_price == stop_sqrt_price {
''', '''                let partial = U256::from(amount_left) < max_amount_in;
                let next_sqrt_price = if partial {
                    get_next_sqrt_price_from_input(
                        current_sqrt_price,
                        config.curve[i].liquidity,
                        amount_left,
                        false,
                    )?
                } else {
                    reference_sqrt_price
                };
                let output_amount = get_delta_amount_base_unsigned(
                    current_sqrt_price,
                    next_sqrt_price,
                    config.curve[i].liquidity,
                    Rounding::Down,
                )?;
                total_output_amount = total_output_amount.safe_add(output_amount)?;
                current_sqrt_price = next_sqrt_price;
                if partial {
                    amount_left = 0;
                    break;
                } else {
                    amount_left = amount_left.safe_sub(
                        max_amount_in
                            .try_into()
                            .map_err(|_| PoolError::TypeCastFailed)?,
                    )?;
                    if next_sqrt_price == stop_sqrt_price {
'''))
S("base to quote in: helper step", "C14", (vp, '''    fn calculate_base_to_quote_from_amount_in(''', '''    fn sold_for(lower: u128, upper: u128, liquidity: u128, total: u64) -> Result<u64> {
        let got = get_delta_amount_quote_unsigned(lower, upper, liquidity, Rounding::Down)?;
        Ok(total.safe_add(got)?)
    }

    fn calculate_base_to_quote_from_amount_in('''), (vp, '''                    let output_amount = get_delta_amount_quote_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;
                } else {
                    let next_sqrt_price = config.curve[i].sqrt_price;
                    let output_amount = get_delta_amount_quote_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
''', '''                    total_output_amount = Self::sold_for(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        total_output_amount,
                    )?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = 0;
                    break;
                } else {
                    let next_sqrt_price = config.curve[i].sqrt_price;
                    total_output_amount = Self::sold_for(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        total_output_amount,
                    )?;
                    current_sqrt_price = next_sqrt_price;
'''))
S("apply result: matches", "C07", (vp, '''        if trade_direction == TradeDirection::BaseToQuote {
            self.base_reserve = self.base_reserve.safe_add(actual_input_amount)?;
            self.quote_reserve = self.quote_reserve.safe_sub(actual_output_amount)?;
        } else {
            self.quote_reserve = self.quote_reserve.safe_add(actual_input_amount)?;
            self.base_reserve = self.base_reserve.safe_sub(actual_output_amount)?;
        }

        self.update_post_swap(config, old_sqrt_price, current_timestamp)?;
        // update cached flag
        self.has_swap = 1;
        Ok(())''', '''        self.has_swap = 1;
        match trade_direction {
            TradeDirection::QuoteToBase => {
                self.base_reserve = self.base_reserve.safe_sub(actual_output_amount)?;
                self.quote_reserve = self.quote_reserve.safe_add(actual_input_amount)?;
            }
            TradeDirection::BaseToQuote => {
                self.quote_reserve = self.quote_reserve.safe_sub(actual_output_amount)?;
                self.base_reserve = self.base_reserve.safe_add(actual_input_amount)?;
            }
        }

        self.update_post_swap(config, old_sqrt_price, current_timestamp)'''),
  (vp, '''            output_amount
                .safe_add(trading_fee)?
                .safe_add(protocol_fee)?
                .safe_add(referral_fee)?
        };

        match''' if False else '''        let actual_output_amount = if fee_mode.fees_on_input {
            output_amount
        } else {
            output_amount
                .safe_add(trading_fee)?
                .safe_add(protocol_fee)?
                .safe_add(referral_fee)?
        };
''', '''        let mut actual_output_amount = output_amount;
        if !fee_mode.fees_on_input {
            let fees = trading_fee.safe_add(protocol_fee)?.safe_add(referral_fee)?;
            actual_output_amount = actual_output_amount.safe_add(fees)?;
        }
'''))
S("claims share a helper", "C07", (vp, '''    pub fn claim_partner_trading_fee(''', '''    fn take(from: &mut u64, most: u64) -> Result<u64> {
        let taken = std::cmp::min(*from, most);
        *from = from.safe_sub(taken)?;
        Ok(taken)
    }

    pub fn claim_partner_trading_fee('''),
  (vp, '''        let token_base_amount = self.partner_base_fee.min(max_base_amount);
        let token_quote_amount = self.partner_quote_fee.min(max_quote_amount);
        self.partner_base_fee = self.partner_base_fee.safe_sub(token_base_amount)?;
        self.partner_quote_fee = self.partner_quote_fee.safe_sub(token_quote_amount)?;
        Ok((token_base_amount, token_quote_amount))''', '''        Ok((
            Self::take(&mut self.partner_base_fee, max_base_amount)?,
            Self::take(&mut self.partner_quote_fee, max_quote_amount)?,
        ))'''),
  (vp, '''        let token_base_amount = self.creator_base_fee.min(max_base_amount);
        let token_quote_amount = self.creator_quote_fee.min(max_quote_amount);
        self.creator_base_fee = self.creator_base_fee.safe_sub(token_base_amount)?;
        self.creator_quote_fee = self.creator_quote_fee.safe_sub(token_quote_amount)?;
        Ok((token_base_amount, token_quote_amount))''', '''        let quote = Self::take(&mut self.creator_quote_fee, max_quote_amount)?;
        let base = Self::take(&mut self.creator_base_fee, max_base_amount)?;
        Ok((base, quote))'''),
  (vp, '''        let trading_claimed_fee = self.protocol_base_fee.min(max_amount);
        self.protocol_base_fee = self.protocol_base_fee.safe_sub(trading_claimed_fee)?;
        let max_amount = max_amount.safe_sub(trading_claimed_fee)?;
        // claim from migration fee
        let migration_claimed_fee = self.protocol_migration_base_fee_amount.min(max_amount);
        self.protocol_migration_base_fee_amount = self
            .protocol_migration_base_fee_amount
            .safe_sub(migration_claimed_fee)?;
        let total_claimed_fee = trading_claimed_fee.safe_add(migration_claimed_fee)?;

        Ok(total_claimed_fee)''', '''        let trading = Self::take(&mut self.protocol_base_fee, max_amount)?;
        let migration =
            Self::take(&mut self.protocol_migration_base_fee_amount, max_amount - trading)?;
        Ok(trading.safe_add(migration)?)'''))
S("surplus: early return", "C12", (vp, '''        let mut amount = self.claim_protocol_quote_fee(max_amount)?;

        if self.is_protocol_withdraw_surplus == 0
            && self.is_curve_complete(migration_quote_threshold)
        {
            self.update_protocol_withdraw_surplus();
            let protocol_surplus_amount = self.get_protocol_surplus(migration_quote_threshold)?;
            amount = amount.safe_add(protocol_surplus_amount)?;
        }

        Ok(amount)''', '''        let fee = self.claim_protocol_quote_fee(max_amount)?;
        if self.is_protocol_withdraw_surplus != 0 || self.quote_reserve < migration_quote_threshold {
            return Ok(fee);
        }
        let surplus = self.get_protocol_surplus(migration_quote_threshold)?;
        self.is_protocol_withdraw_surplus = 1;
        Ok(fee.safe_add(surplus)?)'''))
S("bit tests with operators", "C32", (vp, '''        self.migration_fee_withdraw_status.bitand(mask) == 0
''', '''        !(self.migration_fee_withdraw_status & mask != 0)
'''), (vp, '''        self.migration_fee_withdraw_status = self.migration_fee_withdraw_status.bitxor(mask);
''', '''        self.migration_fee_withdraw_status ^= mask;
'''), (vp, '''        self.creation_fee_bits
            .bitand(PARTNER_CREATION_FEE_CLAIMED_MASK)
            == 0
''', '''        self.creation_fee_bits & 0x2 == 0
'''))
S("swap result by struct update", "C10", (vp, '''        let included_fee_amount_in = if fee_on_input {
            self.actual_input_amount
                .safe_add(self.trading_fee)?
                .safe_add(self.protocol_fee)?
                .safe_add(self.referral_fee)?
        } else {
            self.actual_input_amount
        };

        Ok(included_fee_amount_in)''', '''        if !fee_on_input {
            return Ok(self.actual_input_amount);
        }
        let mut total = self.actual_input_amount;
        for fee in [self.referral_fee, self.protocol_fee, self.trading_fee] {
            total = total.safe_add(fee)?;
        }
        Ok(total)'''))
S("quote delta: shift and add", "C15", (cv, '''    let liquidity = U256::from(liquidity);
    let delta_sqrt_price = U256::from(upper_sqrt_price - lower_sqrt_price);
    let prod = liquidity.safe_mul(delta_sqrt_price)?;

    match round {
        Rounding::Up => {
            let denominator = U256::from(1).safe_shl((RESOLUTION as usize) * 2)?;
            let result = prod.div_ceil(denominator);
            Ok(result)
        }
        Rounding::Down => {
            let (result, _) = prod.overflowing_shr((RESOLUTION as usize) * 2);
            Ok(result)
        }
    }''', '''    let width = upper_sqrt_price - lower_sqrt_price;
    let product = U256::from(width).safe_mul(U256::from(liquidity))?;
    let bits = RESOLUTION as usize + RESOLUTION as usize;
    if matches!(round, Rounding::Down) {
        return Ok(product.overflowing_shr(bits).0);
    }
    Ok(product.div_ceil(U256::from(1).safe_shl(bits)?))'''))
S("base delta: inlined result", "C15", (cv, '''    let result = get_delta_amount_base_unsigned_unchecked(
        lower_sqrt_price,
        upper_sqrt_price,
        liquidity,
        round,
    )?;
    return Ok(result);''', '''    get_delta_amount_base_unsigned_unchecked(lower_sqrt_price, upper_sqrt_price, liquidity, round)'''),
  (cv, '''    let result =
        get_delta_amount_base_unsigned_256(lower_sqrt_price, upper_sqrt_price, liquidity, round)?;
    require!(result <= U256::from(u64::MAX), PoolError::MathOverflow);
    return Ok(result.try_into().map_err(|_| PoolError::TypeCastFailed)?);''', '''    let wide =
        get_delta_amount_base_unsigned_256(lower_sqrt_price, upper_sqrt_price, liquidity, round)?;
    match u64::try_from(wide) {
        Ok(narrow) => Ok(narrow),
        Err(_) => err!(PoolError::MathOverflow),
    }'''))
S("next price: no early return", "C15", (cv, '''    let product = U256::from(amount).safe_mul(sqrt_price)?;
    let denominator = liquidity.safe_add(U256::from(product))?;
    let result = mul_div_u256(liquidity, sqrt_price, denominator, Rounding::Up)
        .ok_or_else(|| PoolError::MathOverflow)?;
    return Ok(result.try_into().map_err(|_| PoolError::TypeCastFailed)?);''', '''    let denominator = U256::from(amount)
        .safe_mul(sqrt_price)?
        .safe_add(liquidity)?;
    let Some(result) = mul_div_u256(sqrt_price, liquidity, denominator, Rounding::Up) else {
        return err!(PoolError::MathOverflow);
    };
    let price: u128 = result.try_into().map_err(|_| PoolError::TypeCastFailed)?;
    Ok(price)'''))
S("delta bins by max and min", "C26", (fe, '''        let (upper_sqrt_price, lower_sqrt_price) = if sqrt_price_a > sqrt_price_b {
            (sqrt_price_a, sqrt_price_b)
        } else {
            (sqrt_price_b, sqrt_price_a)
        };
''', '''        let upper_sqrt_price = sqrt_price_a.max(sqrt_price_b);
        let lower_sqrt_price = sqrt_price_a.min(sqrt_price_b);
'''))
S("references: nested flattened", "C26", (fe, '''        if elapsed >= dynamic_fee_config.filter_period as u64 {
            // Update sqrt of last transaction
            self.sqrt_price_reference = sqrt_price_current;
            // filter period < t < decay_period. Decay time window.
            if elapsed < dynamic_fee_config.decay_period as u64 {
                let volatility_reference = self
                    .volatility_accumulator
                    .safe_mul(dynamic_fee_config.reduction_factor.into())?
                    .safe_div(BASIS_POINT_MAX.into())?;

                self.volatility_reference = volatility_reference;
            }
            // Out of decay time window
            else {
                self.volatility_reference = 0;
            }
        }
        Ok(())''', '''        if elapsed < u64::from(dynamic_fee_config.filter_period) {
            return Ok(());
        }
        self.volatility_reference = if elapsed >= u64::from(dynamic_fee_config.decay_period) {
            0
        } else {
            self.volatility_accumulator
                .safe_mul(u128::from(dynamic_fee_config.reduction_factor))?
                .safe_div(u128::from(BASIS_POINT_MAX))?
        };
        self.sqrt_price_reference = sqrt_price_current;
        Ok(())'''))
S("accumulator by if", "C26", (fe, '''        self.volatility_accumulator = std::cmp::min(
            volatility_accumulator,
            dynamic_fee_config.max_volatility_accumulator.into(),
        );
''', '''        let most = dynamic_fee_config.max_volatility_accumulator as u128;
        self.volatility_accumulator = if volatility_accumulator > most {
            most
        } else {
            volatility_accumulator
        };
'''))
S("fee mode by conditions", "C10", (fe, '''        let (fees_on_input, fees_on_base_token) = match (collect_fee_mode, trade_direction) {
            // When collecting fees on output token
            (CollectFeeMode::OutputToken, TradeDirection::BaseToQuote) => (false, false),
            (CollectFeeMode::OutputToken, TradeDirection::QuoteToBase) => (false, true),

            // When collecting fees on quote token
            (CollectFeeMode::QuoteToken, TradeDirection::BaseToQuote) => (false, false),
            (CollectFeeMode::QuoteToken, TradeDirection::QuoteToBase) => (true, false),
        };
''', '''        let buying = trade_direction == TradeDirection::QuoteToBase;
        let fees_on_input = buying && collect_fee_mode == CollectFeeMode::QuoteToken;
        let fees_on_base_token = buying && !fees_on_input;
'''))
