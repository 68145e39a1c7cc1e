//! Stand-in for the published helper: one signature, everything in this instruction.
use solana_program::{instruction::Instruction, pubkey::Pubkey};
pub fn new_secp256r1_instruction_with_signature(message: &[u8], signature: &[u8; 64], pubkey: &[u8; 33]) -> Instruction {
    let mut d = vec![1u8, 0];
    for v in [49u16, 0xffff, 16, 0xffff, 113, message.len() as u16, 0xffff] {
        d.extend(v.to_le_bytes());
    }
    d.extend(pubkey);
    d.extend(signature);
    d.extend(message);
    Instruction { program_id: Pubkey::from_str_const("Secp256r1SigVerify1111111111111111111111111"), accounts: vec![], data: d }
}
