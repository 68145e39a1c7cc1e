//! The parts of solana-sdk the client libraries use (the crate itself is not
//! available offline): the same types from the crates it re-exports.
pub use solana_program::{hash, instruction, pubkey, sysvar};
#[cfg(not(feature = "wallet"))]
pub use solana_program::keccak;
#[cfg(feature = "wallet")]
mod wallet {
    pub use solana_account as account;
    pub use solana_keccak_hasher as keccak;
    pub use solana_message as message;
    pub use solana_program::{clock, rent};
    pub mod signature {
        pub use super::keypair::Keypair;
        pub use solana_signature::Signature;
        pub use solana_signer::{Signer, SignerError};
    }
    /// Keys of the simulated ledger: a name, not a point on a curve. A signature is
    /// a digest of the key and the message, which the simulated network checks.
    pub mod keypair {
        use solana_program::{hash::hashv, pubkey::Pubkey};
        use solana_signature::Signature;
        use solana_signer::{Signer, SignerError};
        #[derive(Debug)]
        pub struct Keypair(Pubkey);
        impl Keypair {
            pub fn of(k: [u8; 32]) -> Self {
                Keypair(Pubkey::new_from_array(k))
            }
            pub fn insecure_clone(&self) -> Self {
                Keypair(self.0)
            }
        }
        pub fn digest(k: &Pubkey, msg: &[u8]) -> Signature {
            let a = hashv(&[k.as_ref(), msg]).to_bytes();
            let b = hashv(&[&a, k.as_ref()]).to_bytes();
            let mut o = [0; 64];
            o[..32].copy_from_slice(&a);
            o[32..].copy_from_slice(&b);
            Signature::from(o)
        }
        impl Signer for Keypair {
            fn try_pubkey(&self) -> Result<Pubkey, SignerError> {
                Ok(self.0)
            }
            fn try_sign_message(&self, msg: &[u8]) -> Result<Signature, SignerError> {
                Ok(digest(&self.0, msg))
            }
            fn is_interactive(&self) -> bool {
                false
            }
        }
    }
    pub mod transaction {
        pub use solana_transaction::{versioned::VersionedTransaction, Transaction};
    }
}
#[cfg(feature = "wallet")]
pub use wallet::*;
