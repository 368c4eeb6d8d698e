//! The real synstructure, except that `decl_derive!` declares a plain function.
pub use synstructure::{test_derive, AddBounds, BindStyle, BindingInfo, MacroResult, Structure, VariantAst, VariantInfo};
pub mod hv {
    pub use proc_macro2::TokenStream;
    pub use syn::DeriveInput;
}
#[macro_export]
macro_rules! decl_derive {
    ([$derives:ident $($derive_t:tt)*] => $inner:path) => {
        #[allow(non_snake_case)]
        pub fn $derives(i: &$crate::hv::DeriveInput) -> $crate::hv::TokenStream {
            $crate::MacroResult::into_result($inner($crate::Structure::new(i))).unwrap()
        }
    };
}
