ld = "params/liquidity_distribution.rs"
cf = "state/config.rs"
M("round down cap", "C37", (ld, "                curve[i].sqrt_price,\n                curve[i].liquidity,\n                Rounding::Up, // TODO check whether we should use round down or round up\n            )?;\n            if max", "                curve[i].sqrt_price,\n                curve[i].liquidity,\n                Rounding::Down,\n            )?;\n            if max"))
M("ge threshold", "C37", (ld, "if total_amount > U256::from(migration_threshold)", "if total_amount >= U256::from(migration_threshold)")) if 0 else None
M("wrong liquidity", "C37", (ld, "                    next_sqrt_price,\n                    curve[i].liquidity,\n                    amount_left,", "                    next_sqrt_price,\n                    curve[i - 1].liquidity,\n                    amount_left,"))
M("no refusal", "C37", (ld, "        require!(amount_left == 0, PoolError::NotEnoughLiquidity);", ""))
M("lower wrong", "C37", (ld, "            curve[i - 1].sqrt_price\n        };", "            curve[i].sqrt_price.min(curve[i - 1].sqrt_price.max(sqrt_start_price + 1))\n        };"))
M("last full", "C37", (ld, "                lower_sqrt_price,\n                sqrt_migration_price,\n", "                lower_sqrt_price,\n                curve[i].sqrt_price,\n"))
M("no break", "C37", (ld, "            total_amount = total_amount.safe_add(delta_amount)?;\n            break;", "            total_amount = total_amount.safe_add(delta_amount)?;"))
M("buffer only", "C37", (cf, "        if U256::from(swap_amount_buffer) < max_base_amount_on_curve {", "        if U256::from(swap_amount_buffer) > max_base_amount_on_curve {"))
M("bound at migration", "C37", (cf, "get_base_token_for_swap(sqrt_start_price, MAX_SQRT_PRICE, &curve)?;\n\n        if", "get_base_token_for_swap(sqrt_start_price, curve[curve.len() - 1].sqrt_price, &curve)?;\n\n        if")) if 0 else None
M("base wide start", "C37", (ld, "        if curve[i].sqrt_price > sqrt_migration_price {", "        if curve[i].sqrt_price > sqrt_migration_price && i > 0 {"))
S("lower tracked", "C37", (ld, "    let mut total_amount = U256::ZERO;\n    for i in 0..curve.len() {\n        let lower_sqrt_price = if i == 0 {\n            sqrt_start_price\n        } else {\n            curve[i - 1].sqrt_price\n        };", "    let mut total_amount = U256::ZERO;\n    let mut prev = sqrt_start_price;\n    for i in 0..curve.len() {\n        let lower_sqrt_price = prev;\n        prev = curve[i].sqrt_price;"))
S("iter enumerate", "C37", (ld, "    for i in 0..curve.len() {\n        let lower_sqrt_price", "    for (i, _point) in curve.iter().enumerate() {\n        let lower_sqrt_price"))
S("while", "C37", (ld, "        for i in 1..curve.len() {\n            let max_amount", "        let mut i = 0;\n        while i + 1 < curve.len() {\n            i += 1;\n            let max_amount"))
S("one loop", "C37", (ld, "    let mut next_sqrt_price = sqrt_start_price;\n", "    let mut next_sqrt_price = sqrt_start_price;\n    if true { let mut left = migration_threshold; for i in 0..curve.len() { let cap = get_delta_amount_quote_unsigned_256(next_sqrt_price, curve[i].sqrt_price, curve[i].liquidity, Rounding::Up)?; if cap > U256::from(left) { return get_next_sqrt_price_from_input(next_sqrt_price, curve[i].liquidity, left, false); } let cap: u64 = cap.try_into().map_err(|_| PoolError::TypeCastFailed)?; left = left.safe_sub(cap)?; next_sqrt_price = curve[i].sqrt_price; } require!(left == 0, PoolError::NotEnoughLiquidity); return Ok(next_sqrt_price); }\n"))
S("point bound", "C37", (ld, "    for i in 0..curve.len() {\n        let lower_sqrt_price", "    let n = curve.len();\n    for i in 0..n {\n        let point = &curve[i];\n        let _ = point;\n        let lower_sqrt_price"))
S("buffer min", "C37", (cf, "        if U256::from(swap_amount_buffer) < max_base_amount_on_curve {\n            Ok(u64::try_from(swap_amount_buffer).map_err(|_| PoolError::MathOverflow)?)\n        } else {\n            Ok(max_base_amount_on_curve\n                .try_into()\n                .map_err(|_| PoolError::MathOverflow)?)\n        }", "        let bounded = U256::from(swap_amount_buffer).min(max_base_amount_on_curve);\n        Ok(bounded.try_into().map_err(|_| PoolError::MathOverflow)?)"))
