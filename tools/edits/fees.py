cf = "state/config.rs"
rl = "base_fee/fee_rate_limiter.rs"
fs = "base_fee/fee_scheduler.rs"
fee = "state/fee.rs"
M("period rounds up", "C25", (fs, "            .safe_sub(activation_point)?\n            .safe_div", "            .safe_sub(activation_point)?\n            .safe_add(1)?\n            .safe_div"))
M("limiter window exclusive", "C25", (rl, "if u128::from(current_point) > last_effective_rate_limiter_point", "if u128::from(current_point) >= last_effective_rate_limiter_point"))
M("limiter partial step", "C25", (rl, "let numerator_2 = c + i * (a + one);", "let numerator_2 = c + i * a;"))
M("limiter sanity gone", "C25", (rl, '''        // sanity check
        require!(
            fee_numerator >= self.cliff_fee_numerator,
            PoolError::UndeterminedError
        );
''', ''))
M("cap before dynamic", "C25", (cf, '''            .safe_add(base_fee_numerator.into())?;

        // Cap the total fee at MAX_FEE_NUMERATOR
        let total_fee_numerator = if total_fee_numerator > MAX_FEE_NUMERATOR.into() {''', '''            .safe_add(base_fee_numerator.into())?;

        // Cap the total fee at MAX_FEE_NUMERATOR
        let total_fee_numerator = if base_fee_numerator > MAX_FEE_NUMERATOR {'''))
M("exclusive period cap", "C25", (fs, "let period = period.min(self.number_of_period.into());", "let period = period.min(u64::from(self.number_of_period).saturating_sub(1));"))
M("fee rounds down", "C12", (cf, '''            trade_fee_numerator,
            FEE_DENOMINATOR,
            Rounding::Up,''', '''            trade_fee_numerator,
            FEE_DENOMINATOR,
            Rounding::Down,'''))
M("referral out of trading part", "C12", (cf, '''        let protocol_fee = protocol_fee.safe_sub(referral_fee)?;

        Ok((trading_fee''', '''        let trading_fee = trading_fee.safe_sub(referral_fee)?;

        Ok((trading_fee'''))
M("gross-up rounds down", "C12", (cf, '''            FEE_DENOMINATOR.safe_sub(trade_fee_numerator)?,
            Rounding::Up,''', '''            FEE_DENOMINATOR.safe_sub(trade_fee_numerator)?,
            Rounding::Down,'''))
M("fee mode swap", "C12", (fee, "(CollectFeeMode::OutputToken, TradeDirection::QuoteToBase) => (false, true)", "(CollectFeeMode::OutputToken, TradeDirection::QuoteToBase) => (true, false)"))
S("shared split", "C12 C25 C10 C11", (cf, '''        let protocol_fee = safe_mul_div_cast_u64(
            trading_fee,
            PROTOCOL_FEE_PERCENT.into(),
            100,
            Rounding::Down,
        )?;

        // update trading fee
        let trading_fee: u64 = trading_fee.safe_sub(protocol_fee)?;

        let referral_fee = if has_referral {
            safe_mul_div_cast_u64(protocol_fee, HOST_FEE_PERCENT.into(), 100, Rounding::Down)?
        } else {
            0
        };

        let protocol_fee = protocol_fee.safe_sub(referral_fee)?;

        Ok(FeeOnAmountResult {''', '''        let (trading_fee, protocol_fee, referral_fee) =
            self.split_fees(trading_fee, has_referral)?;

        Ok(FeeOnAmountResult {'''))
S("min instead of if", "C25", (cf, '''        let total_fee_numerator = if total_fee_numerator > MAX_FEE_NUMERATOR.into() {
            MAX_FEE_NUMERATOR
        } else {
            total_fee_numerator.try_into().unwrap()
        };
''', '''        let total_fee_numerator: u64 = total_fee_numerator
            .min(u128::from(MAX_FEE_NUMERATOR))
            .try_into()
            .unwrap();
'''))
S("fee scheduler match to if", "C25", (fs, '''        if self.period_frequency == 0 {
            return Ok(self.cliff_fee_numerator);
        }

        let period = current_point
            .safe_sub(activation_point)?
            .safe_div(self.period_frequency)?;

        self.get_base_fee_numerator_by_period(period)''', '''        let elapsed = || current_point.safe_sub(activation_point);
        match self.period_frequency {
            0 => Ok(self.cliff_fee_numerator),
            frequency => {
                let passed = elapsed()?.safe_div(frequency)?;
                self.get_base_fee_numerator_by_period(passed)
            }
        }'''))
S("limiter named parts", "C25", (rl, '''                let first_fee = x0 * numerator_1;
                let second_fee = b * numerator_2;
                first_fee + second_fee
            } else {''', '''                numerator_2 * b + numerator_1 * x0
            } else {'''))
S("limiter helper", "C25", (rl, '''            let denominator = U256::from(FEE_DENOMINATOR);
            let trading_fee = (trading_fee_numerator + denominator - one) / denominator;
''', '''            let trading_fee = fee_of(trading_fee_numerator);
'''), (rl, "impl BaseFeeHandler for FeeRateLimiter {", '''fn fee_of(numerator: U256) -> U256 {
    let denominator = U256::from(FEE_DENOMINATOR);
    numerator.div_ceil(denominator)
}

impl BaseFeeHandler for FeeRateLimiter {'''))
