D = "dynamic-bonding-curve-sdk/src/"
IN, OUT, PF = D + "quote_exact_in.rs", D + "quote_exact_out.rs", D + "quote_partial_fill.rs"
M("direction flipped", "C27", (IN, "let trade_direction = if swap_base_for_quote {", "let trade_direction = if !swap_base_for_quote {"))
M("clock swapped", "C27", (OUT, "ActivationType::Slot => current_slot,\n        ActivationType::Timestamp => current_timestamp,",
                          "ActivationType::Slot => current_timestamp,\n        ActivationType::Timestamp => current_slot,"))
M("always slot", "C27", (PF, "ActivationType::Timestamp => current_timestamp,", "ActivationType::Timestamp => current_slot.max(current_timestamp),"))
M("no completion check", "C27", (OUT, "!pool.is_curve_complete(config.migration_quote_threshold)", "!pool.is_curve_complete(config.migration_quote_threshold.saturating_add(1))"))
M("zero allowed", "C27", (PF, 'ensure!(in_amount > 0, "amount is zero");', ""))
M("referral lost", "C27", (PF, "trade_direction, has_referral)?", "trade_direction, has_referral && !swap_base_for_quote)?"))
M("referral on exact out", "C27", (OUT, "trade_direction, false)?", "trade_direction, swap_base_for_quote)?"))
M("discount dropped", "C27", (IN, "        eligible_for_first_swap_with_min_fee,\n    )?", "        eligible_for_first_swap_with_min_fee && !has_referral,\n    )?"))
M("wrong quote", "C27", (PF, "get_swap_result_from_partial_input", "get_swap_result_from_exact_input"))
M("result touched", "C27", (IN, "let swap_result = pool", "let mut swap_result = pool"), )if 0 else None
M("result trimmed", "C27", (IN, "    Ok(swap_result)", "    let mut swap_result = swap_result;\n    swap_result.output_amount = swap_result.output_amount.saturating_sub(swap_result.referral_fee);\n    Ok(swap_result)"))
M("lenient type", "C27", (IN, 'ActivationType::try_from(config.activation_type).context("invalid activation type")?', "ActivationType::try_from(config.activation_type).unwrap_or(ActivationType::Slot)"))
M("amount less one", "C27", (OUT, "        out_amount,\n        fee_mode", "        out_amount.max(2) - 1,\n        fee_mode"))
S("early bail", "C27", (IN, '    ensure!(in_amount > 0, "amount is zero");', '    if in_amount == 0 {\n        anyhow::bail!("amount is zero");\n    }'))
S("point first", "C27", (OUT, "    let activation_type =\n        ActivationType::try_from(config.activation_type).context(\"invalid activation type\")?;\n    let current_point = match activation_type {\n        ActivationType::Slot => current_slot,\n        ActivationType::Timestamp => current_timestamp,\n    };",
   "    let current_point = match ActivationType::try_from(config.activation_type) {\n        Ok(ActivationType::Slot) => current_slot,\n        Ok(ActivationType::Timestamp) => current_timestamp,\n        Err(_) => return Err(anyhow::anyhow!(\"invalid activation type\")),\n    };"))
S("helper", "C27", (PF, "    let trade_direction = if swap_base_for_quote {\n        TradeDirection::BaseToQuote\n    } else {\n        TradeDirection::QuoteToBase\n    };",
   "    let trade_direction = direction_of(swap_base_for_quote);"), (PF, "pub fn quote_partial_fill(", "fn direction_of(sell: bool) -> TradeDirection {\n    match sell {\n        false => TradeDirection::QuoteToBase,\n        true => TradeDirection::BaseToQuote,\n    }\n}\n\npub fn quote_partial_fill("))
S("tail call", "C27", (IN, "    let swap_result = pool.get_swap_result_from_exact_input(", "    pool.get_swap_result_from_exact_input("), (IN, "        eligible_for_first_swap_with_min_fee,\n    )?;\n\n    Ok(swap_result)", "        eligible_for_first_swap_with_min_fee,\n    )\n    .map_err(|e| anyhow::anyhow!(e))"))
S("with context", "C27", (PF, '.context("invalid activation type")?', '.with_context(|| format!("invalid activation type {}", config.activation_type))?'))
S("fee mode let", "C27", (OUT, "    let fee_mode = &FeeMode::get_fee_mode(config.collect_fee_mode, trade_direction, false)?;", "    let no_referral = false;\n    let mode = FeeMode::get_fee_mode(config.collect_fee_mode, trade_direction, no_referral)?;\n    let fee_mode = &mode;"))
