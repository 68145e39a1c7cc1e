//! Names the wallet client imports and does not use.
pub struct Address;
pub struct B256;
