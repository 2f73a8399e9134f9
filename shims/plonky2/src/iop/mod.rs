#[cfg(feature = "full")]
pub mod challenger;
#[cfg(feature = "full")]
pub mod ext_target;
pub mod target;
#[cfg(feature = "full")]
pub mod witness;
