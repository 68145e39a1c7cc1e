//! Minimal stand-in for the pinocchio-token crate, which is not available
//! offline: the SPL Token `Transfer` instruction builder, the only item the
//! program names.
pub const ID: pinocchio::pubkey::Pubkey = [
    6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237,
    95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169,
];
pub mod instructions {
    use pinocchio::{
        account_info::AccountInfo,
        cpi::invoke_signed,
        instruction::{AccountMeta, Instruction, Signer},
        ProgramResult,
    };
    pub struct Transfer<'a> {
        pub from: &'a AccountInfo,
        pub to: &'a AccountInfo,
        pub authority: &'a AccountInfo,
        pub amount: u64,
    }
    impl Transfer<'_> {
        pub fn invoke(&self) -> ProgramResult {
            self.invoke_signed(&[])
        }
        pub fn invoke_signed(&self, signers: &[Signer]) -> ProgramResult {
            let metas = [
                AccountMeta::writable(self.from.key()),
                AccountMeta::writable(self.to.key()),
                AccountMeta::readonly_signer(self.authority.key()),
            ];
            let mut data = [3u8; 9];
            data[1..].copy_from_slice(&self.amount.to_le_bytes());
            invoke_signed(
                &Instruction { program_id: &super::ID, accounts: &metas, data: &data },
                &[self.from, self.to, self.authority],
                signers,
            )
        }
    }
}
