#[cfg(not(hv_sym))]
pub use quote::*;
#[cfg(hv_sym)]
pub use quote::{ToTokens, TokenStreamExt};
#[doc(hidden)]
pub fn hv_empty() -> proc_macro2::TokenStream { proc_macro2::TokenStream::new() }
/// what synstructure's `gen_impl` is given
#[doc(hidden)]
pub fn hv_impl() -> proc_macro2::TokenStream { quote::quote! { gen impl X for @Self {} } }
#[doc(hidden)]
pub fn hv_tokens(s: &'static str) -> proc_macro2::TokenStream { if s.contains('@') { hv_impl() } else { hv_empty() } }
#[cfg(hv_sym)]
#[macro_export]
macro_rules! quote {
    ($($t:tt)*) => { $crate::hv_tokens(stringify!($($t)*)) };
}
