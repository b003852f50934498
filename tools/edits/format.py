vp = "state/virtual_pool.rs"
cf = "state/config.rs"
sw = "instructions/swap/ix_swap.rs"
kc = "constants.rs"
er = "error.rs"
M("fields swapped", "C28", (vp, "    /// protocol base fee\n    pub protocol_base_fee: u64,\n    /// protocol quote fee\n    pub protocol_quote_fee: u64,", "    /// protocol quote fee\n    pub protocol_quote_fee: u64,\n    /// protocol base fee\n    pub protocol_base_fee: u64,"))
M("padding before field", "C28", (vp, "    pub protocol_liquidity_migration_fee_bps: u16,\n    pub _padding_1: [u8; 6],", "    pub _padding_1: [u8; 6],\n    pub protocol_liquidity_migration_fee_bps: u16,"))
M("type order", "C28", (cf, "    SplToken,\n    Token2022,", "    Token2022,\n    SplToken,"))
M("args order", "C28", (sw, "    pub amount_0: u64,\n    /// When it's exact in, partial fill, this will be minimum_amount_out. When it's exact out, this will be maximum_amount_in\n    pub amount_1: u64,\n    /// Swap mode, refer [SwapMode]\n    pub swap_mode: u8,", "    pub swap_mode: u8,\n    pub amount_0: u64,\n    pub amount_1: u64,"))
M("vault seed", "C28", (kc, 'b"token_vault"', 'b"token-vault"'))
M("operator seed", "C28", (kc, 'b"operator"', 'b"cf_operator"'))
M("pool seed order", "C28", ("instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "            &max_key(&base_mint.key(), &quote_mint.key()),\n            &min_key(&base_mint.key(), &quote_mint.key()),", "            &min_key(&base_mint.key(), &quote_mint.key()),\n            &max_key(&base_mint.key(), &quote_mint.key()),"))
M("accounts order", "C28", (sw, "    /// config key\n    pub config: AccountLoader<'info, PoolConfig>,\n\n    /// Pool account\n    #[account(mut, has_one = base_vault, has_one = quote_vault, has_one = config)]\n    pub pool: AccountLoader<'info, VirtualPool>,", "    #[account(mut, has_one = base_vault, has_one = quote_vault, has_one = config)]\n    pub pool: AccountLoader<'info, VirtualPool>,\n    pub config: AccountLoader<'info, PoolConfig>,"))
M("writable config", "C28", (sw, "    /// config key\n    pub config:", "    /// config key\n    #[account(mut)]\n    pub config:"))
M("creator signs", "C28", ("instructions/partner/ix_create_config.rs", "    pub fee_claimer: UncheckedAccount<'info>,", "    #[account(signer)]\n    pub fee_claimer: UncheckedAccount<'info>,"))
M("error inserted", "C28", (er, "    #[msg(\"Invalid fee setup\")]", "    #[msg(\"New one\")]\n    BrandNew,\n\n    #[msg(\"Invalid fee setup\")]"))
M("array order", "C28", (cf, "    pub sqrt_price: u128,\n    pub liquidity: u128,", "    pub liquidity: u128,\n    pub sqrt_price: u128,"))
S("new flag in padding", "C28 C11 C18", (vp, "    pub has_swap: u8,\n    /// Padding for further use\n    pub _padding_0: [u8; 5],", "    pub has_swap: u8,\n    pub reserved_flag: u8,\n    /// Padding for further use\n    pub _padding_0: [u8; 4],"))
S("padding renamed", "C28", (vp, "    pub _padding_2: [u64; 3],", "    pub padding_2: [u64; 3],"))
S("error at end", "C28", (er, "    #[msg(\"Invalid migration option\")]\n", "    #[msg(\"Invalid migration option!\")]\n"))
S("pool seed by sort", "C28", ("instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "pub fn max_key", "pub fn max_key")) if 0 else None
