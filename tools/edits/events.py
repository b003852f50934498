sw = "instructions/swap/ix_swap.rs"
vp = "state/virtual_pool.rs"
cc = "instructions/partner/ix_create_config.rs"
tp = "instructions/creator/ix_transfer_pool_creator.rs"
wm = "instructions/migration/ix_withdraw_migration_fee.rs"
wl = "instructions/migration/withdraw_leftover.rs"
cp = "instructions/operator/ix_claim_protocol_fee.rs"
pf = "instructions/partner/ix_claim_partner_pool_creation_fee.rs"
ps = "instructions/partner/ix_withdraw_partner_surplus.rs"
co = "instructions/admin/ix_close_claim_protocol_fee_operator.rs"
ef = "instructions/swap/swap_exact_out.rs"
M("amount in without fee", "C29", (sw, "        amount_in: swap_result_2.included_fee_input_amount,\n        current", "        amount_in: swap_result_2.excluded_fee_input_amount,\n        current"))
M("swapped fees", "C29", (vp, "            trading_fee: self.trading_fee,\n            protocol_fee: self.protocol_fee,\n            referral_fee: self.referral_fee,\n        }\n    }\n}\n\npub struct SwapAmountFromOutput", "            trading_fee: self.protocol_fee,\n            protocol_fee: self.trading_fee,\n            referral_fee: self.referral_fee,\n        }\n    }\n}\n\npub struct SwapAmountFromOutput"))
M("reserve before", "C29", (sw, "        quote_reserve_amount: pool.quote_reserve,", "        quote_reserve_amount: quote_before,"), (sw, "    let swap_result = swap_result_2.get_swap_result();", "    let quote_before = pool.quote_reserve;\n    let swap_result = swap_result_2.get_swap_result();"))
M("old creator after", "C29", (tp, "        creator: ctx.accounts.creator.key(),\n        new_creator: ctx.accounts.new_creator.key(),", "        creator: ctx.accounts.virtual_pool.load()?.creator,\n        new_creator: ctx.accounts.new_creator.key(),"))
M("requested instead of paid", "C29", (cp, "        token_base_amount,\n        token_quote_amount\n    });", "        token_base_amount,\n        token_quote_amount: max_quote_amount.min(token_quote_amount)\n    });"))
M("curve complete swapped", "C29", (sw, "            base_reserve: pool.base_reserve,\n            quote_reserve: pool.quote_reserve,", "            base_reserve: pool.quote_reserve,\n            quote_reserve: pool.base_reserve,"))
M("referral from mode", "C29", (sw, "        has_referral,\n        swap_parameters: params,", "        has_referral: has_referral && fee_mode.fees_on_base_token,\n        swap_parameters: params,"))
M("no event on small", "C29", (ps, "    emit_cpi!(EvtPartnerWithdrawSurplus {", "    if amount_over_threshold > 0 { emit_cpi!(EvtPartnerWithdrawSurplus {")) if 0 else None
M("config event threshold", "C29", (cc, "        migration_base_amount: included_protocol_fee_migration_base_amount,", "        migration_base_amount: swap_base_amount,"))
M("closed operator", "C29", (co, "operator: claim_fee_operator.operator", "operator: ctx.accounts.claim_fee_operator.key()"))
S("result inlined", "C29 C10 C11", (sw, "        amount_in: swap_result_2.included_fee_input_amount,\n        current", "        amount_in: { let r = &swap_result_2; r.included_fee_input_amount },\n        current"))
S("timestamp again", "C29", (sw, "        migration_threshold: config.migration_quote_threshold,\n        current_timestamp,", "        migration_threshold: config.migration_quote_threshold,\n        current_timestamp: Clock::get()?.unix_timestamp as u64,"))
M("log only", "C29", (sw, "    emit_cpi!(EvtSwap {", "    emit!(EvtSwap {"))
M("leftover of before", "C29", (wl, "leftover_amount,", "leftover_amount: 0,")) if 0 else None
