//! Independent reference models: RLP, Merkle-Patricia tries, and an EVM.
pub mod block;
pub mod compact;
pub mod ec;
pub mod evm;
pub mod mpt;
pub mod precompiles;
pub mod rlp;
pub mod tower;
pub mod tx;
