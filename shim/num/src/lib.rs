//! num 0.1.42 without bigint, complex and rational: num-traits and nothing else.
extern crate num_traits;
pub use num_traits::*;
pub mod traits { pub use num_traits::*; }
pub mod cast { pub use num_traits::cast::*; }
