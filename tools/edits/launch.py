
s1 = "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs"
s2 = "instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs"
md = "instructions/initialize_pool/process_create_token_metadata.rs"
cf = "state/config.rs"
vp = "state/virtual_pool.rs"
M("partner mint only", "C19", (cf, "TokenAuthorityOption::CreatorUpdateAndMintAuthority => Some(creator),\n            TokenAuthorityOption::PartnerUpdateAndMintAuthority => Some(partner),", "TokenAuthorityOption::CreatorUpdateAndMintAuthority => Some(creator),\n            TokenAuthorityOption::PartnerUpdateAuthority\n            | TokenAuthorityOption::PartnerUpdateAndMintAuthority => Some(partner),"))
M("immutable gets creator 2022", "C19", (s2, "OptionalNonZeroPubkey::try_from(token_update_authority)?", "OptionalNonZeroPubkey::try_from(token_update_authority.or(Some(ctx.accounts.creator.key())))?"))
M("mutable metadata", "C19", (md, "params.token_authority != TokenAuthorityOption::Immutable;", "params.token_authority != TokenAuthorityOption::CreatorUpdateAuthority;"))
M("activation point", "C19", (s1, "let activation_point = get_current_point(config.activation_type)?;", "let activation_point = get_current_point(config.activation_type)?.min(config.migration_quote_threshold);"))
M("supply fixed uses post", "C19", (cf, "            Ok(self.pre_migration_token_supply)\n        } else {\n            let mut curve", "            Ok(self.post_migration_token_supply)\n        } else {\n            let mut curve"))
M("buffer curve truncated", "C19", (cf, "for i in 0..MAX_CURVE_POINT_CONFIG {\n                if self.curve[i].liquidity == 0 {\n                    break;\n                }\n                curve.push", "for i in 0..MAX_CURVE_POINT_CONFIG - 6 {\n                if self.curve[i].liquidity == 0 {\n                    break;\n                }\n                curve.push"))
M("reserve not minted", "C19", (vp, "self.base_reserve = base_reserve;", "self.base_reserve = base_reserve - u64::from(pool_type);"))
M("no min fee check 2022", "C19", (s2, "config.pool_fees.base_fee.validate_min_base_fee()?;", "let _ = config.pool_fees.base_fee.validate_min_base_fee();"))
M("lock after an hour", "C19", (s1, "config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY)?", "config.get_total_liquidity_locked_bps_at_n_seconds(SECONDS_PER_DAY / 24)?"))
M("migration fee bps", "C19", (s2, "        PROTOCOL_LIQUIDITY_MIGRATION_FEE_BPS,\n", "        PROTOCOL_LIQUIDITY_MIGRATION_FEE_BPS * 5,\n"))
M("freeze authority", "C19", (s1, "mint::authority = pool_authority,", "mint::authority = pool_authority,\n        mint::freeze_authority = creator,"))
M("creation fee threshold", "C19", (s1, "if config.pool_creation_fee > 0 {", "if config.pool_creation_fee > 1_000_000 {"))
M("payer instead of creator signer", "C19", (s1, "    pub creator: Signer<'info>,", "    /// CHECK: creator\n    pub creator: UncheckedAccount<'info>,"))
S("authority first", "C19", (s1, """    let token_mint_authority =
        token_authority.get_mint_authority(ctx.accounts.creator.key(), config.fee_claimer.key());

    anchor_spl""", """    let creator_key = ctx.accounts.creator.key();
    let token_mint_authority = match token_authority {
        crate::state::TokenAuthorityOption::CreatorUpdateAndMintAuthority => Some(creator_key),
        crate::state::TokenAuthorityOption::PartnerUpdateAndMintAuthority => Some(config.fee_claimer),
        _ => None,
    };

    anchor_spl"""))
S("fee before mint", "C19", (s1, """    // charge pool creation fee
    if config.pool_creation_fee > 0 {
        transfer_lamports_from_user(
            ctx.accounts.payer.to_account_info(),
            ctx.accounts.pool.to_account_info(),
            ctx.accounts.system_program.to_account_info(),
            config.pool_creation_fee,
        )?;
    }
""", ""), (s1, """    // mint token
    let seeds""", """    let creation_fee = config.pool_creation_fee;
    if creation_fee != 0 {
        transfer_lamports_from_user(
            ctx.accounts.payer.to_account_info(),
            ctx.accounts.pool.to_account_info(),
            ctx.accounts.system_program.to_account_info(),
            creation_fee,
        )?;
    }
    // mint token
    let seeds"""))
S("supply iter", "C19", (cf, """            for i in 0..MAX_CURVE_POINT_CONFIG {
                if self.curve[i].liquidity == 0 {
                    break;
                }
                curve.push(self.curve[i].to_liquidity_distribution_parameters());
            }
            let swap_amount""", """            for point in self.curve.iter() {
                if point.liquidity > 0 {
                    curve.push(point.to_liquidity_distribution_parameters());
                } else {
                    break;
                }
            }
            let swap_amount"""))
S("supply while", "C19", (cf, """            for i in 0..MAX_CURVE_POINT_CONFIG {
                if self.curve[i].liquidity == 0 {
                    break;
                }
                curve.push(self.curve[i].to_liquidity_distribution_parameters());
            }
            let swap_amount""", """            let mut i = 0;
            while i < MAX_CURVE_POINT_CONFIG && self.curve[i].liquidity != 0 {
                curve.push(self.curve[i].to_liquidity_distribution_parameters());
                i += 1;
            }
            let swap_amount"""))
S("supply takewhile", "C19", (cf, """            let mut curve = vec![];
            for i in 0..MAX_CURVE_POINT_CONFIG {
                if self.curve[i].liquidity == 0 {
                    break;
                }
                curve.push(self.curve[i].to_liquidity_distribution_parameters());
            }
            let swap_amount""", """            let curve: Vec<_> = self
                .curve
                .iter()
                .take_while(|p| p.liquidity != 0)
                .map(|p| p.to_liquidity_distribution_parameters())
                .collect();
            let swap_amount"""))
S("check helper", "C19", (s2, """    // validate min base fee
    config.pool_fees.base_fee.validate_min_base_fee()?;
""", ""), (s2, """    let InitializePoolParameters { name, symbol, uri } = params;
""", """    let InitializePoolParameters { name, symbol, uri } = params;
    check_fee(&config)?;
"""), (s2, "pub fn handle_initialize", """fn check_fee(config: &PoolConfig) -> Result<()> {
    config.pool_fees.base_fee.validate_min_base_fee()
}

pub fn handle_initialize"""))
