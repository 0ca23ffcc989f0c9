//! Contracts on the jobs that rename ids.
pub mod c22;
pub mod c23;
pub mod c33;
pub mod c34;
pub mod c35;
pub mod c36;
pub mod tree;
