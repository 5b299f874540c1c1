pub mod board;
pub mod engine;
pub mod game;
pub mod rng;
pub mod solver;
pub mod stat;
pub mod value;
pub mod video;
pub use board::*;
pub use engine::*;
pub use rng::*;
pub use value::{ToV, V};
