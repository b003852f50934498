//! Signature-only stand-in for MeteoraAg/zap-program `protocol-zap`, which is not available offline.
//! It exists so that the modules that use it type-check; it is never executed.
pub mod constants {
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [[1u8; 32], [2u8; 32]];
}
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}
pub mod utils {
    use crate::error::ProtozolZapError;
    #[inline(never)]
    pub fn validate_zap_out_to_treasury(
        _amount: u64,
        _program_id: &[u8; 32],
        _receiver_token: &[u8; 32],
        _receiver_token_data: &[u8],
        _sysvar_instructions_data: &[u8],
        _treasury: &[u8; 32],
        _treasury_paired_destination: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        unimplemented!()
    }
}
