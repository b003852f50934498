SM = "math/safe_math.rs"
def sm(fn, old, new):
    src = open("/repo/programs/dynamic-bonding-curve/src/" + SM).read()
    a = src.index("fn %s(self, v: $t)" % fn)
    b = src.index("            #[track_caller]", a)
    body = src[a:b]
    return (SM, body, body.replace(old, new, 1))
REST = """                match self.checked_%s(v) {
                    Some(result) => Ok(result),
                    None => {
                        let caller = Location::caller();
                        msg!("Math error thrown at {}:{}", caller.file(), caller.line());
                        Err(PoolError::MathOverflow)
                    }
                }"""
M("add wraps", "C16", sm("safe_add", REST % "add", "                Ok(self.wrapping_add(v))"))
M("sub wraps", "C16", sm("safe_sub", REST % "sub", "                Ok(self.wrapping_sub(v))"))
M("mul wraps", "C16", sm("safe_mul", REST % "mul", "                Ok(self.wrapping_mul(v))"))
M("cast cuts", "C16", (SM, "try_into_impl!(u128, u64);", "impl SafeCast<u64> for u128 {\n    fn safe_cast(self) -> Result<u64, PoolError> {\n        Ok(self as u64)\n    }\n}"))
M("fee cut", "C16", ("math/fee_math.rs", "let fee_numerator = u64::try_from(fee).map_err(|_| PoolError::TypeCastFailed)?;", "let fee_numerator = fee as u64;"))
M("bps cut", "C16", ("params/fee_parameters.rs", "Ok(u64::try_from(numerator).map_err(|_| PoolError::TypeCastFailed)?)", "Ok(numerator as u64)"))
M("quotient cut", "C16", ("math/u128x128_math.rs", "    let (quotient, _is_overflow) = prod.overflowing_shr(offset.into());\n    quotient.try_into().ok()", "    let (quotient, _is_overflow) = prod.overflowing_shr(offset.into());\n    Some(quotient.wrapping_to::<u128>())"))
M("swap amount cut", "C16", ("instructions/partner/ix_create_config.rs", "    let swap_base_amount: u64 = swap_base_amount_256\n        .try_into()\n        .map_err(|_| PoolError::TypeCastFailed)?;", "    let swap_base_amount: u64 = swap_base_amount_256.wrapping_to::<u64>();"))
M("amount cut", "C16", ("curve.rs", "    require!(result <= U256::from(u64::MAX), PoolError::MathOverflow);\n    return Ok(result.try_into().map_err(|_| PoolError::TypeCastFailed)?);\n}\n\n/// * `Δa", "XX")) if 0 else None
M("limb", "C16", ("math/utils_math.rs", "    Ok(result.try_into().map_err(|_| PoolError::TypeCastFailed)?)", "    let limbs = result.as_limbs();\n    Ok(limbs[0] as u128 | (limbs[1] as u128) << 64)"))
S("checked cast", "C16 C25", ("params/fee_parameters.rs", "Ok(u64::try_from(numerator).map_err(|_| PoolError::TypeCastFailed)?)", "require!(numerator <= u64::MAX as u128, PoolError::TypeCastFailed);\n    Ok(numerator as u64)"))
S("checked cast fee", "C16 C25", ("math/fee_math.rs", "let fee_numerator = u64::try_from(fee).map_err(|_| PoolError::TypeCastFailed)?;", "if fee > u128::from(u64::MAX) {\n        return Err(PoolError::TypeCastFailed.into());\n    }\n    let fee_numerator = fee as u64;"))
S("widening", "C16 C25", ("math/fee_math.rs", ".safe_mul(cliff_fee_numerator.into())?", ".safe_mul(cliff_fee_numerator as u128)?"))
S("overflowing add", "C16 C11", sm("safe_add", REST % "add", "                let (result, overflow) = self.overflowing_add(v);\n                if overflow {\n                    return Err(PoolError::MathOverflow);\n                }\n                Ok(result)"))
S("guarded sub", "C16 C11 C07", sm("safe_sub", REST % "sub", "                if v > self {\n                    return Err(PoolError::MathOverflow);\n                }\n                Ok(self - v)"))
