pub mod agg;
pub mod decoder;
pub mod evm;
pub mod kernasm;
pub mod mpt;
pub mod nibbles;
pub mod seg;
pub mod pubvals;
pub mod pv;
pub mod smt;
pub mod starks;
pub mod tables;
pub mod tower;
pub mod wire;
