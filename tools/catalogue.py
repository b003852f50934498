NOTE = ("Decided for every execution of the analysed functions: the rules are discharged on the symbolic summary of the compiled MIR, "
        "over all inputs, accounts and stored states. Assumes the MIR mirror (external crates replaced by signature stubs), the "
        "interpreter's models of core/Anchor/SPL calls, and that called programs and the runtime behave as documented.")
NOTES = ("Every check rebuilds the MIR of /repo's current source with the pinned nightly compiler driver in driver/ and decides its "
         "rules on the dump; nothing of the program is executed. See DESIGN.md.")

TI = "symbolic abstract interpretation of rustc MIR (whole-instruction value-flow summaries, guard implication and frame rules)"

PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, na=None, note=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech)
    if technique:
        d["technique"] = technique
    if na:
        d["na"] = na
    if note:
        d["note"] = note
    PROPS.append(d)


P("C01", "Only admins manage operators",
  "An operator account, or a legacy fee-operator account, can be created or closed only in a transaction signed by one of the fixed "
  "admin keys, and the operator's stored address and permissions are exactly what the admin supplied. No other instruction ever "
  "writes or closes an operator account.",
  ["inputs", "configurations"], "every instruction, every account set and signer set, every argument value",
  "The tests call a handful of pure functions; no test builds an instruction with accounts, so no signer check is ever exercised.",
  ["instructions/admin/auth.rs", "instructions/admin/ix_create_operator_account.rs", "instructions/admin/ix_close_operator_account.rs",
   "instructions/admin/ix_close_claim_protocol_fee_operator.rs", "state/operator.rs", "access_control.rs"],
  [("admin key list and access control", "instructions/admin/auth.rs"), ("operator state", "state/operator.rs")], TI)

P("C02", "Operator permissions gate protocol-fee actions",
  "Claiming protocol trading fees, zapping protocol fees and claiming the protocol's pool-creation fee each succeed only when a "
  "signer is the address stored in the presented operator account and that operator holds the permission for that specific action.",
  ["inputs", "configurations"], "every operator account state (all permission bit sets), every signer",
  "Tests check the permission bit arithmetic for two sample values; none runs an instruction with an operator lacking the permission.",
  ["access_control.rs", "state/operator.rs", "instructions/operator/ix_claim_protocol_fee.rs", "instructions/operator/ix_zap_protocol_fee.rs",
   "instructions/operator/ix_claim_protocol_pool_creation_fee.rs", "lib.rs"],
  [("is_valid_operator_role", "access_control.rs"), ("permission bits", "state/operator.rs")], TI)

P("C03", "Partner and creator actions need the partner's or creator's signature",
  "Every instruction that pays the partner or the pool creator, hands over the creator role, or writes partner or pool metadata "
  "succeeds only if the stored fee claimer or the stored creator signed it. The creator of a pool changes only through the "
  "creator's own signed hand-over, made while the pool trades or, after migration, once all liquidity tokens recorded for both "
  "parties are locked and claimed.",
  ["inputs", "configurations"], "every account set, signer set and stored pool/config state",
  "No unit test runs an instruction with accounts; missing has_one or signer constraints compile and pass every test.",
  ["instructions/partner/ix_claim_partner_trading_fee.rs", "instructions/partner/ix_withdraw_partner_surplus.rs",
   "instructions/partner/ix_claim_partner_pool_creation_fee.rs", "instructions/creator/ix_claim_creator_trading_fee.rs",
   "instructions/creator/ix_withdraw_creator_surplus.rs", "instructions/creator/ix_transfer_pool_creator.rs",
   "instructions/migration/ix_withdraw_migration_fee.rs", "instructions/partner/ix_create_partner_metadata.rs",
   "instructions/creator/ix_create_virtual_pool_metadata.rs"],
  [("account constraints (has_one, Signer)", "instructions/"), ("sender checks", "instructions/migration/ix_withdraw_migration_fee.rs")], TI)

P("C04", "Accounts are bound to their pool",
  "In every instruction that uses a pool together with a config, vault or mint, the config, vaults and mints are the ones recorded "
  "for that pool. Token transfers signed by the program's pool authority leave only the presented pool's own two vaults, and all "
  "other transfers are authorised by a signer of the instruction.",
  ["inputs", "configurations"], "all instructions, all account substitutions",
  "Account substitution is not reachable from the unit tests, which have no accounts.",
  ["instructions/swap/ix_swap.rs", "instructions/partner/ix_claim_partner_trading_fee.rs", "instructions/creator/ix_claim_creator_trading_fee.rs",
   "instructions/operator/ix_claim_protocol_fee.rs", "instructions/operator/ix_zap_protocol_fee.rs", "instructions/migration/withdraw_leftover.rs",
   "instructions/migration/ix_withdraw_migration_fee.rs", "utils/token.rs", "const_pda.rs"],
  [("has_one / address constraints", "instructions/"), ("pool-authority signed transfers", "utils/token.rs")], TI)

P("C05", "Migration progress only moves forward through its stages",
  "A pool's progress moves only: trading to waiting-for-vesting-lock or ready-to-migrate when a swap completes the curve, "
  "waiting-for-vesting-lock to ready-to-migrate when the vesting lock is created, and ready-to-migrate to migrated in a migration, "
  "each only from the stage before. Reserves, price and finish time change only in swaps, swaps happen only before completion, and "
  "the migrated mark is set exactly by a migration of a completed curve.",
  ["histories", "inputs"], "every sequence of instructions on a pool, by induction over single instructions from any stored state",
  "Histories of instructions are never run by the tests; each step's guard is invisible to them.",
  ["instructions/swap/ix_swap.rs", "instructions/migration/create_locker.rs", "state/virtual_pool.rs",
   "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs",
   "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"],
  [("set_migration_progress and its guards", "state/virtual_pool.rs")], TI)

P("C06", "One-shot payouts happen at most once",
  "Each one-time entitlement (partner, creator and protocol surplus, leftover, migration fee, pool-creation fees, LP hand-outs) is "
  "recorded by a mark that only its own instruction sets and that no instruction ever clears.",
  ["histories", "inputs"], "every instruction from any stored state, hence every history",
  "Double claims need two instruction executions on the same accounts; the tests execute none.",
  ["state/virtual_pool.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs", "instructions/migration/withdraw_leftover.rs",
   "instructions/migration/ix_withdraw_migration_fee.rs", "instructions/partner/ix_withdraw_partner_surplus.rs",
   "instructions/creator/ix_withdraw_creator_surplus.rs"],
  [("status flags and bit masks", "state/virtual_pool.rs")], TI)

P("C07", "Trading-fee claims pay exactly what is debited",
  "A trading-fee claim by the partner, the creator or the protocol pays the lesser of the requested and the accrued amount per "
  "token, out of the matching vault, and reduces that party's accrued fee by exactly the amount paid. It changes no other party's "
  "accrued fee and nothing else in the pool.",
  ["inputs", "histories"], "all accrued balances, all requested maxima",
  "No test claims a fee; amounts paid versus amounts debited are never compared.",
  ["instructions/partner/ix_claim_partner_trading_fee.rs", "instructions/creator/ix_claim_creator_trading_fee.rs",
   "instructions/operator/ix_claim_protocol_fee.rs", "instructions/operator/ix_zap_protocol_fee.rs", "state/virtual_pool.rs"],
  [("claim_* on the pool state", "state/virtual_pool.rs"), ("vault transfers", "utils/token.rs")], TI)

P("C08", "Surplus is split 80/20 and paid once per party",
  "After completion, the quote collected beyond the migration threshold is split: a fifth to the protocol, and four fifths between "
  "partner and creator by the creator's configured percentage, with rounding remainders going to the partner and the protocol "
  "respectively. Each party is paid exactly its share, at most once, and never before completion.",
  ["inputs", "histories"], "all reserves, thresholds, percentages and flag states",
  "The tests never compute a surplus payout from pool state nor pay one twice.",
  ["state/virtual_pool.rs", "state/config.rs", "instructions/partner/ix_withdraw_partner_surplus.rs",
   "instructions/creator/ix_withdraw_creator_surplus.rs", "instructions/operator/ix_claim_protocol_fee.rs", "constants.rs"],
  [("surplus split", "state/virtual_pool.rs"), ("creator split", "state/config.rs")], TI)

P("C09", "Migration fee is split between partner and creator and paid once",
  "The migration fee is the part of the migration threshold not reserved for the new pool; the creator gets its configured "
  "percentage of it rounded down and the partner the rest. Each of the two is paid exactly its part, to the account it named, at most "
  "once and only after completion.",
  ["inputs", "histories"], "all thresholds, percentages, status bits and sender flags",
  "Tests check the splitting arithmetic on random samples but not that the payout uses it, marks it, or is gated on completion.",
  ["instructions/migration/ix_withdraw_migration_fee.rs", "state/config.rs", "state/virtual_pool.rs"],
  [("get_migration_fee_distribution", "state/config.rs"), ("status masks", "state/virtual_pool.rs")], TI)

P("C18", "Configs are immutable and each instruction touches only its own pool fields",
  "Once created, a config never changes. Each instruction changes only the pool fields that belong to its purpose; identity fields "
  "(config, mints, vaults, activation point, pool type) never change after initialisation, and pools and configs are never closed.",
  ["histories", "inputs"], "all instructions, all stored states",
  "No test observes what an instruction leaves unchanged.",
  ["state/virtual_pool.rs", "state/config.rs", "instructions/"],
  [("single writers of pool fields", "state/virtual_pool.rs")], TI)

P("C31", "Leftover base tokens go to the configured receiver, once, after migration",
  "For fixed-supply tokens, the base tokens left after migration, minus every base fee still owed, can be withdrawn once, only after "
  "migration, and only to an account owned by the receiver fixed in the config.",
  ["inputs", "histories"], "all vault balances, fee balances and flags",
  "No test runs the leftover withdrawal.",
  ["instructions/migration/withdraw_leftover.rs", "state/virtual_pool.rs"],
  [("withdraw_leftover", "instructions/migration/withdraw_leftover.rs")], TI)

P("C32", "Pool-creation fees are split 10/90 and claimed once",
  "Of the pool-creation fee held by a pool, the protocol can claim a tenth (and the fixed legacy fee where it was charged) to the "
  "treasury and the partner the rest to a receiver it names, each at most once; the lamports debited equal the lamports credited and "
  "the pool keeps its rent-exempt balance.",
  ["inputs", "histories"], "all fee amounts, bit sets and lamport balances",
  "No test runs either claim.",
  ["instructions/partner/ix_claim_partner_pool_creation_fee.rs", "instructions/operator/ix_claim_protocol_pool_creation_fee.rs",
   "state/virtual_pool.rs", "state/config.rs", "constants.rs"],
  [("creation fee split and bits", "state/virtual_pool.rs")], TI)

P("C10", "A swap moves exactly the quoted amounts and respects the trader's limits",
  "A swap takes from the trader exactly the quoted input including fees, into the vault of the input token, and pays exactly the "
  "quoted output from the other vault, plus the quoted referral share when a referral account is given. It fails when the output is "
  "below the trader's minimum, the input above the trader's maximum, or the amount is zero. The quote is for the amount, direction, "
  "current pool state and current time of that very swap, never for a different direction, fee mode or pool.",
  ["inputs", "configurations"], "every amount, limit, swap mode, direction, fee collection mode and pool state",
  "Unit tests call the quote functions directly; none runs the swap instruction, so neither limits nor transfers are exercised.",
  ["instructions/swap/ix_swap.rs", "instructions/swap/swap_exact_in.rs", "instructions/swap/swap_exact_out.rs",
   "instructions/swap/swap_partial_fill.rs", "utils/token.rs", "params/swap.rs"],
  [("limits, transfers and quote arguments of a swap", "instructions/swap/")], TI)

P("C11", "A swap books exactly what it moved",
  "After a swap the pool's two reserves have changed by exactly the traded amounts without fees, its price is the quoted next price, "
  "and the trading fee is credited to creator (its configured percentage, rounded down) and partner (the rest) and the protocol fee to "
  "the protocol, all in the token the fee was taken in. Lifetime fee totals grow by the same amounts, and no other pool field changes "
  "except completion and volatility tracking.",
  ["inputs", "histories"], "every quote, direction, fee mode and pool state",
  "Tests never run the swap's state update from every state nor compare each accrual with what was charged.",
  ["state/virtual_pool.rs", "instructions/swap/ix_swap.rs", "state/config.rs"],
  [("apply_swap_result", "state/virtual_pool.rs"), ("split_partner_and_creator_fee", "state/config.rs")], TI)

P("C12", "A trading fee is split without loss and rounded against the trader",
  "The fee on an amount is the fee rate times the amount, rounded up, and grossing an amount up by a fee rounds up too. Of every fee a "
  "fifth, rounded down, goes to the protocol, of which a fifth, rounded down, goes to the referral if there is one; the rest stays with "
  "partner and creator, and the parts always add up to the fee. The fee token follows the collection mode: quote always, or the output "
  "token.",
  ["inputs"], "all 64-bit amounts and fee rates, all collection modes and directions",
  "Tests sample a few amounts; a rounding flaw or a lost unit appears only at particular remainders.",
  ["state/config.rs", "state/fee.rs", "constants.rs"],
  [("get_fee_on_amount, split_fees, get_included_fee_amount", "state/config.rs"), ("get_fee_mode", "state/fee.rs")], TI)

P("C13", "The curve completes exactly at its threshold, and only if the vault is solvent",
  "No swap succeeds once the quote reserve has reached the migration threshold, and the swap that reaches it sets the finish time, "
  "announces completion and moves the pool to the vesting stage if a vesting is configured, otherwise straight to ready-to-migrate. "
  "That swap fails unless the base vault, after its transfers, still holds the migration amount, the vesting total and all base fees owed. "
  "No other swap touches finish time or progress.",
  ["inputs", "histories"], "every reserve, threshold, vesting configuration and vault balance",
  "No test completes a curve through the swap instruction.",
  ["instructions/swap/ix_swap.rs", "state/virtual_pool.rs", "state/config.rs"],
  [("completion in a swap", "instructions/swap/ix_swap.rs")], TI)

P("C14", "Quotes walk the configured curve segment by segment",
  "A quote crosses the curve's price ranges in order from the current price, each with its own liquidity, stopping at the end of the "
  "curve or the migration price. An exact-input quote uses the whole input or fails, a partial-fill quote charges only what was used, and "
  "an exact-output quote delivers the whole output or fails. Fees are taken from the input or from the output as the fee mode says, and "
  "every reported amount follows from the walk.",
  ["inputs"], "all curves, prices, amounts, directions and fee modes, every number of crossed segments (by induction over the walk)",
  "Tests sample a few curves and amounts; segment boundaries, last segments and fee-mode combinations are rarely hit.",
  ["state/virtual_pool.rs", "curve.rs"],
  [("get_swap_result_from_* and the walk over the curve", "state/virtual_pool.rs")], TI)

P("C15", "Every rounding in a quote favours the pool",
  "Amounts a trader must pay are rounded up and amounts a trader receives are rounded down, in every segment and both directions. The "
  "price after a trade never moves further than an input pays for and at least as far as an output costs, and the deposits computed for "
  "migration positions are rounded up.",
  ["inputs"], "all prices, liquidities and amounts, both tokens and directions",
  "A rounding flipped in one branch shows only at particular remainders; the tests' samples assert loose inequalities.",
  ["curve.rs", "state/virtual_pool.rs", "math/utils_math.rs"],
  [("get_delta_amount_*, get_next_sqrt_price_*", "curve.rs")], TI)

P("C25", "The fee rate follows the configured schedule and is capped",
  "The base fee falls by one step per elapsed period, a fixed amount or a fixed share of what is left, never below the fee after the last configured period, "
  "and no fee is quoted before activation. Under the rate limiter purchases inside the window pay the fee that grows with the amount, "
  "at least the cliff fee, while sales and later purchases pay the cliff fee. The dynamic fee is added "
  "as the configured multiple of the squared volatility, rounded up, and the total is capped at 99%.",
  ["inputs", "schedules"], "all fee configurations, points in time, amounts and volatilities",
  "Tests sample some periods and amounts; the step count, window edges, and the cap interact over the whole input space.",
  ["base_fee/fee_scheduler.rs", "base_fee/fee_rate_limiter.rs", "base_fee/mod.rs", "state/config.rs", "constants.rs"],
  [("BaseFeeHandler implementations", "base_fee/"), ("get_total_fee_numerator*", "state/config.rs")], TI)

P("C26", "Volatility is tracked as configured",
  "With the dynamic fee on, the reference price is renewed and the volatility reference decayed only once the filter period has passed "
  "since the last update, and cleared after the decay period. The volatility after a trade is the reference plus the price steps moved, "
  "capped at the configured maximum, and the update time moves only when the price moved at least one step. A trade's own fee uses the "
  "volatility from before it, and nothing is tracked while the dynamic fee is off.",
  ["histories", "inputs"], "every volatility state, time and price movement",
  "Decay and filter windows need sequences of swaps in time; the tests exercise at most one update.",
  ["state/fee.rs", "state/config.rs", "state/virtual_pool.rs"],
  [("update_references / update_volatility_accumulator", "state/fee.rs")], TI)

P("C17", "Only valid configurations are accepted",
  "Creating a config fails for any setting out of range: an unknown mode or option, a fee, share or decimal count beyond its limit, a "
  "zero threshold, an empty or not strictly rising curve, a fee schedule that falls below the minimum fee, or dynamic-fee, vesting and "
  "new-pool settings that are out of bounds or that the chosen migration target does not support. Liquidity shares must add up to 100%. "
  "The quote token must be a classic token or, for the newer pool program, carry no extension besides metadata.",
  ["configurations", "inputs"], "all config parameters, curves of every length, quote mints and their extensions",
  "Tests validate a few parameter sets; each bound interacts with modes and options over a space no test enumerates.",
  ["instructions/partner/ix_create_config.rs", "params/fee_parameters.rs", "base_fee/fee_rate_limiter.rs", "base_fee/fee_scheduler.rs",
   "utils/damm_v2_utils.rs", "utils/token.rs", "state/config.rs"],
  [("ConfigParameters::validate", "instructions/partner/ix_create_config.rs"), ("fee parameter validation", "params/fee_parameters.rs"),
   ("is_supported_quote_mint", "utils/token.rs")], TI)

P("C33", "A config stores what was given and its supply suffices",
  "A new config keeps exactly the given settings and accounts, the whole curve in order, and the migration price and curve "
  "base amount derived from that curve and threshold. A fixed supply must cover the curve (with its buffer before migration), the new "
  "pool's base amount and the token vesting, must not grow at migration, and names a receiver for leftovers. At least a tenth of the migrated "
  "liquidity must still be locked one day after migration.",
  ["configurations", "inputs"], "all config parameters and curves",
  "No test creates a config through the instruction; a field stored from the wrong parameter compiles and passes every test.",
  ["instructions/partner/ix_create_config.rs", "state/config.rs", "params/liquidity_distribution.rs"],
  [("PoolConfig::init", "state/config.rs"), ("handle_create_config", "instructions/partner/ix_create_config.rs")], TI)

P("C19", "A pool launches with its whole supply in its vault and no hidden rights",
  "A new pool takes its price, activation point, token program and creation fee from its config, and is otherwise zero. Exactly the base supply "
  "the config asks for is minted once, into the pool's own vault; afterwards only the creator or partner, where the config says so, can mint more or "
  "update the metadata, and nobody can freeze tokens. A pool is not created if less than a tenth of its liquidity would still be locked a day "
  "after migration or its base fee could fall below 0.25%.",
  ["inputs", "configurations"], "both launch instructions, all configs and account sets",
  "Tests never run a launch; a wrong mint authority, supply or starting value is visible only on chain.",
  ["instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs",
   "instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs",
   "instructions/initialize_pool/process_create_token_metadata.rs", "state/virtual_pool.rs", "state/config.rs"],
  [("handle_initialize_virtual_pool_*", "instructions/initialize_pool/"), ("TokenAuthorityOption", "state/config.rs"),
   ("get_initial_base_supply", "state/config.rs")], TI)

V2 = "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"
V1 = "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs"

P("C20", "Migration deposits what the curve raised at the price it ended",
  "Migration succeeds only for a pool whose curve is complete and whose token vesting is settled, only to the pool program its config chose, "
  "and creates exactly one new pool, funded from the pool's two vaults. The deposit is the migration thresholds less the migration fee "
  "and the protocol's recorded share (in the concentrated modes, the base vault less unclaimed base fees); what the first position does not take "
  "is deposited as a second one. A new pool of the newer program opens at the migration price, or, when it compounds fees, at the price "
  "of the deposited amounts.",
  ["inputs", "configurations"], "both migration instructions, all configs, reserves, fees and vault balances",
  "Migration calls other programs and is never run by the unit tests; the deposit formula depends on mode, fees and balances together.",
  [V2, V1, "migration_handler/mod.rs", "migration_handler/concentrated_liquidity.rs", "migration_handler/compounding_liquidity.rs", "state/config.rs"],
  [("handle_migrate_damm_v2", V2), ("handle_migrate_meteora_damm", V1), ("MigrationHandler implementations", "migration_handler/")], TI)

P("C21", "Migrated liquidity is shared, locked and vested as configured",
  "The liquidity of the new pool is split between partner and creator by the configured percentages, and each party receives its own position "
  "(or has its own share of the liquidity tokens recorded). The configured shares are locked for ever or put on the configured vesting "
  "schedule before a position is handed over. Nothing else is locked and no position goes to anyone else.",
  ["inputs", "configurations"], "all configs and vesting settings, both destinations, both orders of the two shares",
  "Tests check the percentage arithmetic only; who gets which position, and whether it is locked first, is decided inside cross-program calls.",
  [V2, V1, "state/config.rs", "params/liquidity_distribution.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs"],
  [("lock_liquidity_position, set_authority_for_position", V2), ("get_liquidity_distribution", "state/config.rs"),
   ("LiquidityDistributionItem", "state/config.rs")], TI)

P("C34", "The new pool runs on the chosen terms",
  "Migration accepts only a destination config that belongs to the pool program, reserves pool creation for this program and, for a fixed fee "
  "option, charges exactly that fee without a schedule, delay or reserved vault. A customised new pool gets the fee, fee schedule, "
  "fee-gathering mode, compounding share and dynamic-fee switch stored in the config. Its dynamic fee adds at most a fifth of the lowest base fee.",
  ["inputs", "configurations"], "all destination configs, all fee options, schedules and stored terms",
  "No unit test passes a destination config or looks at the parameters sent to the pool program.",
  [V2, V1, "params/fee_parameters.rs", "utils/damm_v2_utils.rs", "state/config.rs"],
  [("validate_config_key", V2), ("build_damm_v2_pool_fee_params", "state/config.rs"), ("MigrationFeeOption::validate_base_fee", "state/config.rs")], TI)

P("C35", "Surplus tokens are burnt at migration, within the fixed supply's bounds",
  "After the last deposit, base tokens left in the pool's vault beyond the unclaimed trading fees and the protocol's migration fee are burnt, "
  "once, from that vault. With a fixed supply at most the configured reduction (supply before less supply after migration) is burnt.",
  ["inputs", "configurations"], "both migration instructions, all vault balances and fee amounts",
  "The burn happens inside a cross-program call at the end of migration, which no unit test runs.",
  [V2, V1, "state/config.rs"],
  [("get_burnable_amount_post_migration", "state/config.rs"), ("burn after the second reload", V2)], TI)

P("C36", "Each share of the old-style liquidity tokens is paid once to its party",
  "Liquidity tokens are locked for, or handed to, the partner or the creator only after migration, in exactly the amount the migration record "
  "holds for that party, and each share once. They come from the program's own holding, locked tokens enter an escrow owned by that party, "
  "and claimed ones an account the party owns. A migration record starts empty, for a pool whose config chose this destination.",
  ["inputs", "histories"], "all records, owners and accounts, in any order of calls",
  "Double payment needs a sequence of instructions and accounts; the tests run none.",
  ["instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs", "instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs",
   "instructions/migration/meteora_damm/migration_meteora_damm_create_metadata.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs"],
  [("lock_as_*, claim_as_*", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs")], TI)

P("C24", "Swaps cannot be stacked under the rate limiter",
  "While the rate limiter applies to a purchase, the swap succeeds only if no earlier instruction of the transaction is a swap of the same pool "
  "(or belongs to another program and names the pool), and, when called from another program, only at the first level and after no other "
  "swap of that pool there. The lowest fee on a first swap is granted only when the config offers it, the pool has never been traded, there is no "
  "referral, the swap is called directly, and the same transaction launched the pool before it.",
  ["inputs", "histories"], "all transactions: every list of instructions, call depth, and pool and config state",
  "It quantifies over whole transactions; the unit tests build none.",
  ["instructions/swap/ix_swap.rs", "base_fee/fee_rate_limiter.rs", "state/virtual_pool.rs", "state/config.rs"],
  [("validate_single_swap_instruction", "instructions/swap/ix_swap.rs"),
   ("validate_contain_initialize_pool_ix_and_no_cpi", "instructions/swap/ix_swap.rs"), ("is_rate_limiter_applied", "base_fee/fee_rate_limiter.rs")], TI)

P("C22", "The vault authority's signature reaches only trusted programs, unharmed",
  "The authority that owns every vault signs only calls to the token programs, the token metadata program and the fixed pool and locker programs, "
  "in every instruction. A call it signs outside the token programs fails the transaction if the authority's account ends with less SOL, "
  "another owner or another data size than before.",
  ["inputs", "configurations"], "all cross-program calls of all 28 instructions, all accounts passed for the called programs",
  "What a called program does with the signature is outside every test; no unit test performs a call.",
  ["utils/cpi_checker.rs", V2, V1, "instructions/migration/create_locker.rs", "instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs",
   "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs"],
  [("cpi_with_account_lamport_and_owner_checking", "utils/cpi_checker.rs"), ("flash_rent", "instructions/migration")], TI)

P("C23", "Protocol fees reach the treasury or a checked zap",
  "Claimed protocol fees and the protocol's surplus leave the vaults only for the treasury's own associated token account, still owned by it. "
  "A zap pays, from the vault of one of the pool's tokens, a positive amount of a token that is not restricted, to the operator's own "
  "associated account. It succeeds only if the zap checker, asked before the payment about that amount, that account and the treasury's "
  "account for the pool's other token, accepts the transaction.",
  ["inputs", "configurations"], "all receivers, tokens, amounts and pools, whatever the zap checker answers",
  "The tests cover the amount arithmetic; which account is paid and what the checker is asked is never run.",
  ["instructions/operator/ix_claim_protocol_fee.rs", "instructions/operator/ix_zap_protocol_fee.rs", "utils/token.rs"],
  [("validate_ata_token", "utils/token.rs"), ("handle_zap_protocol_fee", "instructions/operator/ix_zap_protocol_fee.rs")], TI)

P("C30", "Locked tokens vest to the creator on the configured terms",
  "A completed pool with vesting locks its tokens once: one vesting escrow, at an address of its own, is funded from its base vault for its creator. "
  "The escrow follows the configured cliff, period and amounts counted from the moment the curve was completed, and lets only the recipient "
  "change the recipient and only the creator side cancel. The pool then moves to the next migration stage.",
  ["inputs", "configurations"], "all vesting settings, all completion times including those that would overflow, all accounts",
  "The escrow is created by a cross-program call that no unit test makes.",
  ["instructions/migration/create_locker.rs", "instructions/partner/ix_create_config.rs"],
  [("handle_create_locker", "instructions/migration/create_locker.rs"),
   ("to_create_vesting_escrow_params", "instructions/partner/ix_create_config.rs")], TI)

P("C29", "Announced events tell what happened",
  "Each event of a swap, claim, withdrawal, config creation, creator hand-over, metadata creation and operator closing is announced once, exactly "
  "when that happened, through a call of the program to itself. Its amounts equal what was moved, and its accounts and parameters are the ones "
  "used and stored.",
  ["inputs", "configurations"], "all inputs of the 17 instructions that announce these events",
  "Indexers rebuild balances from events; no unit test looks at one.",
  ["event.rs", "instructions/swap/ix_swap.rs", "instructions/partner/ix_create_config.rs", "instructions/partner/ix_claim_partner_trading_fee.rs",
   "instructions/migration/ix_withdraw_migration_fee.rs"],
  [("handle_swap_wrapper", "instructions/swap/ix_swap.rs"), ("handle_create_config", "instructions/partner/ix_create_config.rs")], TI)

P("C28", "Stored formats, addresses and calls stay as published",
  "Accounts written by earlier releases keep their meaning: each account type keeps its discriminator, size and the place and type of every "
  "field, and each coded value keeps its number. Each instruction keeps its discriminator, its arguments and the order of its accounts, and asks "
  "for no further signature or write access. Pools, vaults, operators, metadata and lockers are created at the addresses derived from their published seeds.",
  ["histories", "configurations"], "every account, event and instruction type, every field, every derived address of the program",
  "It relates this program to accounts and callers that exist already; tests create everything anew.",
  ["state/virtual_pool.rs", "state/config.rs", "state/operator.rs", "constants.rs", "event.rs", "lib.rs", "instructions"],
  [("seeds", "constants.rs"), ("#[account(zero_copy)]", "state/virtual_pool.rs"), ("program entry points", "lib.rs")], TI)

P("C37", "Migration price and reserved tokens follow from the curve",
  "The migration price is the one the curve reaches when exactly the migration threshold of quote has been paid in, filling segment after segment, each "
  "with its capacity rounded up; a curve that cannot take the threshold is refused. The base tokens a curve sells up to a price are the sum over "
  "its segments, each rounded up and the last cut at that price. The tokens reserved for trading are the need up to the migration price plus 25%, "
  "at most what the whole curve sells.",
  ["inputs"], "all curves, thresholds, prices and numbers of segments",
  "The walk over a curve of any length cannot be enumerated; the tests sample a few curves.",
  ["params/liquidity_distribution.rs", "state/config.rs", "curve.rs"],
  [("get_migration_threshold_price, get_base_token_for_swap", "params/liquidity_distribution.rs"), ("get_swap_amount_with_buffer", "state/config.rs")], TI)

P("C16", "No amount silently wraps or is cut off",
  "Whatever an instruction stores, transfers, passes on, announces or decides by, and whatever a quote or curve computation returns, "
  "is computed without wrap-around or lossy conversion: a result that does not fit its type makes the instruction fail. Only the "
  "runtime's clock reading is reinterpreted as unsigned.",
  ["inputs", "configurations"], "all instructions, all arguments and stored values",
  "Wrapped and truncated values appear only at extreme amounts, which the sampled tests do not reach; release builds carry casts silently.",
  ["math/safe_math.rs", "math/utils_math.rs", "math/fee_math.rs", "curve.rs", "state/virtual_pool.rs", "state/config.rs", "instructions/"],
  [("checked arithmetic and casts", "math/safe_math.rs"), ("casts of computed amounts", "curve.rs")], TI,
  note=None)

P("C27", "The SDK's quotes are the program's own",
  "Each quote of the client SDK (exact input, partial fill, exact output) is the unchanged result of the program's own quote function "
  "of that kind, for the given pool, config, amount, direction and first-swap discount, at the current slot or time as the config's "
  "activation type says, with the fee mode and referral share the swap instruction would use. The SDK refuses a quote for a completed "
  "pool, a zero amount, or a config with an unknown activation type or fee collection mode.",
  ["inputs", "configurations"], "all pool and config states, all amounts, directions, clocks and flags",
  "The SDK's tests quote a few stored pools and compare amounts loosely; they cannot cover both activation types, all fee modes, "
  "directions and flags for every pool state.",
  ["dynamic-bonding-curve-sdk/src/quote_exact_in.rs", "dynamic-bonding-curve-sdk/src/quote_partial_fill.rs",
   "dynamic-bonding-curve-sdk/src/quote_exact_out.rs"],
  [("quote functions", "dynamic-bonding-curve-sdk/src/"), ("quote functions of the pool", "state/virtual_pool.rs")], TI)

# ---------------------------------------------------------------- properties static analysis cannot decide here

P("C38", "No trader profits from a round trip",
  "Whatever the curve and the fee settings, buying base tokens and selling them back at once (in any number of pieces) never returns "
  "more quote tokens than were paid.",
  ["inputs", "histories"], "all curves, amounts and splits of a round trip",
  "Tests try a few curves and amounts.", ["curve.rs", "state/virtual_pool.rs"], [("amounts and next price per segment", "curve.rs")],
  na="Needs an inequality between compositions of rounded quotients of products of 128-bit quantities over an unbounded sequence of "
     "trades; no abstract domain in reach bounds it. C14 and C15 decide the parts that are static: which formula each step uses and that "
     "each rounding favours the pool.")

P("C39", "The vaults always cover every recorded claim",
  "At any time the quote vault holds at least the pool's quote reserve plus all fees recorded as owed in quote, and the base vault at "
  "least the base tokens the rest of the curve can sell, the base fees owed and the tokens reserved for vesting and migration.",
  ["histories", "inputs"], "all histories of swaps, claims, withdrawals and migrations on all configs",
  "Tests hold no vaults and run no histories.", ["state/virtual_pool.rs", "state/config.rs", "instructions/"],
  [("reserves and fee counters", "state/virtual_pool.rs")],
  na="The quote side is an invariant whose steps C07-C11 and C13 decide one by one, but the base side rests on the sum of rounded "
     "sales over the curve never exceeding the initial supply, a nonlinear bound over unbounded histories that value-flow analysis "
     "cannot establish. The program itself checks the vault at completion; C13 decides that this check is made.")

P("C40", "A purchase never lowers the price and a sale never raises it",
  "The price after a purchase is at least the price before and at most that of the curve's last point; the price after a sale is at "
  "most the price before and at least the start price.",
  ["inputs"], "all curves, prices and amounts", "Tests try a few amounts.", ["curve.rs", "state/virtual_pool.rs"],
  [("next price from amounts", "curve.rs")],
  na="Monotonicity of L*p/(L+x*p) and p+x/L under integer rounding is a nonlinear fact. C14 and C15 decide the formulas, their rounding "
     "and the stop at the segment ends and at the start price; C10 and C11 that the price stored is the quoted one.")

P("C41", "Exact-input and exact-output quotes agree",
  "Quoting the output of an exact-input quote as an exact output asks for at most the original input, up to rounding by a few units "
  "per curve segment crossed.",
  ["inputs"], "all pools and amounts", "Tests compare a few amounts.", ["state/virtual_pool.rs", "curve.rs", "base_fee/"],
  [("quotes in both directions", "state/virtual_pool.rs")],
  na="A bound on the accumulated rounding error of two different nonlinear computations; static dataflow has no domain for it.")

P("C42", "The rate limiter's inverse finds the fee of the amount",
  "In the limiter window, the fee rate found for an output amount is the rate that would be charged on the input the output came "
  "from, up to rounding.",
  ["inputs"], "all limiter settings and amounts", "Tests sample a few settings.", ["base_fee/fee_rate_limiter.rs"],
  [("included fee amount from excluded", "base_fee/fee_rate_limiter.rs")],
  na="The inverse solves a quadratic with an integer square root; its accuracy is a numeric fact about rounding. C25 decides the "
     "forward schedule, the cap, and the flat rates outside the window and for small outputs.")

P("C43", "Liquidity computed for the new pool matches price and deposits",
  "The square roots and liquidity computed for the new pool reproduce the migration price to within the documented tolerance, and the "
  "deposits they imply never exceed the reserved amounts.",
  ["inputs"], "all thresholds, fees and prices", "Tests sample some amounts.",
  ["migration_handler/compounding_liquidity.rs", "migration_handler/concentrated_liquidity.rs", "math/utils_math.rs"],
  [("liquidity and square roots", "migration_handler/")],
  na="Accuracy of an iterated integer square root and of the formulas built on it is numeric, not structural. C20, C33 and C37 decide "
     "which amounts and prices enter, their comparison with the reserved amounts, and what happens when they do not fit.")
