//! A name the wallet client imports and does not use.
pub struct PrivateKeySigner;
