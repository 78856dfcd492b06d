#[macro_use]
pub mod mpc;
pub mod prog;
pub mod sim;
