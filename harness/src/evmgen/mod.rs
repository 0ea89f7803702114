pub mod asm;
pub mod engine;
pub mod tries;
pub mod gas;
pub mod jumps;
pub mod mix;
pub mod ops;
pub mod pre;
pub mod prog;
pub mod valid;
pub mod blocks;
