//! A small deterministic Cosmos chain: it runs the *real* contract entry points natively, implements the
//! message/reply/rollback semantics of x/wasm, the bank and tokenfactory modules, and keeps an event log that
//! the monitors read.  Everything observable by a monitor goes through this file.
pub mod chain;
pub mod code;
pub mod cw20c;
pub mod num;
pub mod proto;
pub mod rng;
pub mod run;

pub use chain::*;
pub use code::*;
pub use rng::Rng;
pub use run::*;
