//! The network the wallet client talks to: every call goes to the simulator.
use solana_account::Account;
use solana_program::{hash::Hash, pubkey::Pubkey};
use solana_signature::Signature;
use solana_transaction::{versioned::VersionedTransaction, Transaction};
use std::cell::RefCell;

pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub String);
    impl std::fmt::Display for ClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ClientError {}
}
use client_error::ClientError;
type Res<T> = Result<T, ClientError>;

/// What the simulator answers.
pub trait Net {
    fn account(&mut self, key: &Pubkey) -> Result<Option<Account>, String>;
    fn slot(&mut self) -> Result<u64, String>;
    fn blockhash(&mut self) -> Result<Hash, String>;
    fn send(&mut self, tx: VersionedTransaction) -> Result<Signature, String>;
}
thread_local!(static NET: RefCell<Option<Box<dyn Net>>> = const { RefCell::new(None) });
pub fn connect(net: Option<Box<dyn Net>>) -> Option<Box<dyn Net>> {
    NET.with(|n| std::mem::replace(&mut *n.borrow_mut(), net))
}
fn ask<T>(f: impl FnOnce(&mut dyn Net) -> Result<T, String>) -> Res<T> {
    NET.with(|n| match n.borrow_mut().as_mut() {
        Some(x) => f(x.as_mut()).map_err(ClientError),
        None => Err(ClientError("no network".into())),
    })
}
pub mod rpc_request {
    use super::*;
    pub enum TokenAccountsFilter {
        Mint(Pubkey),
        ProgramId(Pubkey),
    }
}
pub mod rpc_response {
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: solana_account_decoder_client_types::UiAccount,
    }
    pub struct Response<T> {
        pub value: T,
    }
}
pub trait AnyTransaction: Clone {
    fn versioned(&self) -> VersionedTransaction;
}
impl AnyTransaction for VersionedTransaction {
    fn versioned(&self) -> VersionedTransaction {
        self.clone()
    }
}
impl AnyTransaction for Transaction {
    fn versioned(&self) -> VersionedTransaction {
        self.clone().into()
    }
}
pub mod rpc_client {
    use super::*;
    use solana_commitment_config::CommitmentConfig;
    pub struct RpcClient(());
    impl RpcClient {
        pub fn new_with_commitment(_: String, _: CommitmentConfig) -> Self {
            RpcClient(())
        }
        pub fn get_account(&self, k: &Pubkey) -> Res<Account> {
            ask(|n| n.account(k))?.ok_or_else(|| ClientError(format!("AccountNotFound: {k}")))
        }
        pub fn get_account_data(&self, k: &Pubkey) -> Res<Vec<u8>> {
            Ok(self.get_account(k)?.data)
        }
        pub fn get_account_with_commitment(&self, k: &Pubkey, _: CommitmentConfig) -> Res<rpc_response::Response<Option<Account>>> {
            Ok(rpc_response::Response { value: ask(|n| n.account(k))? })
        }
        pub fn get_balance(&self, k: &Pubkey) -> Res<u64> {
            Ok(ask(|n| n.account(k))?.map(|a| a.lamports).unwrap_or(0))
        }
        pub fn get_slot(&self) -> Res<u64> {
            ask(|n| n.slot())
        }
        pub fn get_latest_blockhash(&self) -> Res<Hash> {
            ask(|n| n.blockhash())
        }
        pub fn send_and_confirm_transaction(&self, tx: &impl AnyTransaction) -> Res<Signature> {
            let tx = tx.versioned();
            ask(|n| n.send(tx))
        }
        pub fn get_token_accounts_by_owner(&self, _: &Pubkey, _: rpc_request::TokenAccountsFilter) -> Res<Vec<rpc_response::RpcKeyedAccount>> {
            Ok(vec![])
        }
    }
}
