vp = "state/virtual_pool.rs"
def within(fn, old, new):
    src = open("/repo/programs/dynamic-bonding-curve/src/" + vp).read()
    a = src.index("fn %s(" % fn)
    b = src.index("\n    }\n", a)
    body = src[a:b]
    assert old in body, (fn, old)
    return (vp, body, body.replace(old, new, 1))
QO, BI, BO, QI = ("calculate_quote_to_base_from_amount_out", "calculate_base_to_quote_from_amount_in",
                  "calculate_base_to_quote_from_amount_out", "calculate_quote_to_base_from_amount_in")
M("start less one", "C14", within(QO, "let mut amount_left = amount_out;", "let mut amount_left = amount_out.saturating_sub(1);"))
M("sell liquidity of below at cross", "C14", within(BI, "                        current_sqrt_price,\n                        config.curve[i + 1].liquidity,\n                        amount_left,\n                        true,", "                        current_sqrt_price,\n                        config.curve[i].liquidity,\n                        amount_left,\n                        true,"))
M("sell loop one short", "C14", within(BI, "(0..config.curve.len() - 1).rev()", "(0..config.curve.len() - 2).rev()"))
M("sell last segment uses second", "C14", within(BI, "                current_sqrt_price,\n                config.curve[0].liquidity,\n                amount_left,", "                current_sqrt_price,\n                config.curve[1].liquidity,\n                amount_left,"))
M("sell compare le", "C14", within(BI, "if U256::from(amount_left) < max_amount_in {", "if U256::from(amount_left) <= max_amount_in {"))
M("buy out cap up", "C14", within(QO, "                    config.curve[i].liquidity,\n                    Rounding::Down,", "                    config.curve[i].liquidity,\n                    Rounding::Up,"))
M("buy out left kept", "C14", within(QO, "        require!(amount_left == 0, PoolError::AmountLeftIsNotZero);", ""))
M("total starts at one", "C14", within(QO, "let mut total_input_amount = 0u64;", "let mut total_input_amount = 1u64;"))
M("stop at start", "C14", within(BI, "if next_sqrt_price < config.sqrt_start_price {", "if next_sqrt_price <= config.sqrt_start_price {")) if 0 else None
M("no floor", "C14", within(BI, "if next_sqrt_price < config.sqrt_start_price {", "if next_sqrt_price < config.sqrt_start_price / 2 {"))
S("point copy", "C14 C15", within(QO, "            if config.curve[i].sqrt_price == 0 || config.curve[i].liquidity == 0 {\n                break;\n            }", "            let point = config.curve[i];\n            if point.liquidity == 0 || point.sqrt_price == 0 {\n                break;\n            }"))
S("return early", "C14 C15", within(QO, "                    total_input_amount = total_input_amount.safe_add(input_amount)?;\n                    current_sqrt_price = next_sqrt_price;\n                    amount_left = 0;\n                    break;", "                    return Ok(SwapAmountFromOutput { amount_in: total_input_amount.safe_add(input_amount)?, next_sqrt_price });"))
S("guard flipped", "C14 C15", within(BI, "            if config.curve[i].sqrt_price < current_sqrt_price {", "            let floor = config.curve[i].sqrt_price;\n            if current_sqrt_price > floor {"))
S("index from one", "C14 C15", within(BI, "for i in (0..config.curve.len() - 1).rev() {", "for j in (1..config.curve.len()).rev() {\n            let i = j - 1;"))
S("take while", "C14 C15", within(QO, "        for i in 0..config.curve.len() {", "        let points = &config.curve;\n        for i in 0..points.len() {"))
S("early return no amount", "C14 C15", within(BI, "        if amount_left != 0 {", "        if amount_left > 0 {"))
