//! Runtime for the generated interface programs: value types, a message format, adapters and the history driver.
pub use fizyr_rpc;
pub use tokio;

mod drive;
mod format;
mod gate;
mod life;
pub mod types;

pub use drive::*;
pub use format::*;
pub use types::{Rng, Ty};
