vp = "state/virtual_pool.rs"
B2Q = '''                    let output_amount = get_delta_amount_quote_unsigned(
                        next_sqrt_price,
                        current_sqrt_price,
                        config.curve[i + 1].liquidity,
                        Rounding::Down,
                    )?;
                    total_output_amount = total_output_amount.safe_add(output_amount)?;
                    current_sqrt_price = next_sqrt_price;
                    amount_left = amount_left.safe_sub('''
M("sell full step rounds up", "C14", (vp, B2Q, B2Q.replace("Rounding::Down", "Rounding::Up")))
M("sell full step wrong segment", "C14", (vp, B2Q, B2Q.replace("[i + 1]", "[i]")))
M("sell full step drops total", "C14", (vp, B2Q, B2Q.replace("total_output_amount.safe_add(output_amount)?", "output_amount")))
M("walk skips last segment", "C14", (vp, '''            let mut next_sqrt_price = get_next_sqrt_price_from_input(
                current_sqrt_price,
                config.curve[0].liquidity,''', '''            let mut next_sqrt_price = get_next_sqrt_price_from_input(
                current_sqrt_price,
                config.curve[1].liquidity,'''))
M("partial fill refunds", "C14", (vp, "actual_amount_in = actual_amount_in.safe_sub(amount_left)?;", "actual_amount_in = actual_amount_in.safe_sub(amount_left.min(1))?;"))
M("exact out no migration bound", "C14", (vp, '''        require!(
            next_sqrt_price <= config.migration_sqrt_price,
            PoolError::InsufficientLiquidity
        );
''', ""))
M("exact out fee base", "C14", (vp, '''                PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, amount_in)?;''', '''                PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, amount_out)?;'''))
S("helper for reference price", "C14", (vp, "let reference_sqrt_price = stop_sqrt_price.min(config.curve[i].sqrt_price);",
  "let segment_end = config.curve[i].sqrt_price;\n            let reference_sqrt_price = if segment_end < stop_sqrt_price { segment_end } else { stop_sqrt_price };"))
S("while loop", "C14", (vp, '''        for i in 0..config.curve.len() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            let reference''', '''        let mut next = 0;
        while next < config.curve.len() {
            let i = next;
            next += 1;
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            let reference'''))
S("iterator loop", "C14", (vp, '''        for i in 0..config.curve.len() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            if config.curve[i].sqrt_price > current_sqrt_price {''', '''        for (i, point) in config.curve.iter().enumerate() {
            if point.sqrt_price == 0 || point.liquidity == 0 {
                break;
            }
            if point.sqrt_price > current_sqrt_price {'''))
S("while down", "C14", (vp, '''        let mut total_amount_in = 0;
        // Use curve.len() for backward compatibility for existing pools with 20 points
        for i in (0..config.curve.len() - 1).rev() {
            if config''', '''        let mut total_amount_in = 0;
        let mut upper = config.curve.len() - 1;
        while upper > 0 {
            upper -= 1;
            let i = upper;
            if config'''))
S("iter zip loop", "C14", (vp, '''        for i in 0..config.curve.len() {
            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {
                break;
            }
            if config.curve[i].sqrt_price > current_sqrt_price {''', '''        for i in 0..config.curve.len() {
            let point = &config.curve[i];
            let empty = point.sqrt_price == 0 || point.liquidity == 0;
            if empty {
                break;
            }
            if current_sqrt_price < point.sqrt_price {'''))
