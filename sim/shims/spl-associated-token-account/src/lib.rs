//! Stand-in for the published helper: the address and the creation request.
use solana_program::pubkey::Pubkey;
solana_program::declare_id!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
const TOKEN: Pubkey = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub fn get_associated_token_address(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[owner.as_ref(), TOKEN.as_ref(), mint.as_ref()], &ID).0
}
pub mod instruction {
    use super::*;
    use solana_program::instruction::{AccountMeta, Instruction};
    pub fn create_associated_token_account(payer: &Pubkey, owner: &Pubkey, mint: &Pubkey, program: &Pubkey) -> Instruction {
        let at = Pubkey::find_program_address(&[owner.as_ref(), program.as_ref(), mint.as_ref()], &ID).0;
        Instruction {
            program_id: ID,
            accounts: vec![
                AccountMeta::new(*payer, true),
                AccountMeta::new(at, false),
                AccountMeta::new_readonly(*owner, false),
                AccountMeta::new_readonly(*mint, false),
                AccountMeta::new_readonly(Pubkey::new_from_array([0; 32]), false),
                AccountMeta::new_readonly(*program, false),
            ],
            data: vec![0],
        }
    }
}
