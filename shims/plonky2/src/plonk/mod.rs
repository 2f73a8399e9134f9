#[cfg(feature = "full")]
pub mod circuit_builder;
#[cfg(feature = "full")]
pub mod circuit_data;
pub mod config;
#[cfg(feature = "full")]
pub mod plonk_common;
#[cfg(feature = "full")]
pub mod proof;
