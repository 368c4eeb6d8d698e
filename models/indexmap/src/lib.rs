#[cfg(not(hv_sym))]
pub use indexmap::*;
#[cfg(hv_sym)]
mod model;
#[cfg(hv_sym)]
pub use model::*;
