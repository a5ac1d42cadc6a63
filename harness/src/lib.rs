//! Verification harnesses.  Every `h_*` function is executed symbolically by /verif/engine from the
//! LLVM IR of this crate (which contains /repo's code, its dependencies and std), and natively by
//! the `replay` binary.
#![allow(dead_code)]
pub mod sym;
pub mod common;
#[cfg(feature = "g_eval")]
pub mod eval;
#[cfg(feature = "g_eval")]
pub mod err;
#[cfg(feature = "g_eval")]
pub mod long;
#[cfg(any(feature = "g_tok", feature = "g_bin"))]
pub mod tok;
#[cfg(feature = "g_tok")]
pub mod txt;
#[cfg(feature = "g_bin")]
pub mod bin_;

#[cfg(feature = "g_ci")]
pub mod ci;

#[cfg(feature = "g_ctx")]
pub mod ctx;
#[cfg(feature = "g_dec")]
pub mod dec;
#[cfg(feature = "g_cplx")]
pub mod cplx;

#[cfg(feature = "g_num")]
pub mod num;
#[cfg(feature = "g_num")]
pub mod fun;
#[cfg(feature = "g_num")]
pub mod wrap;

/// Declares harness entry points: `harness!(h_name => path::to::fn)`.
#[macro_export]
macro_rules! entry {
    ($($n:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n() $body )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n as extern "C" fn()) ),* ];
    };
}

/// All entry points of the groups compiled in (for the replay binary).
pub fn table() -> Vec<(&'static str, extern "C" fn())> {
    #[allow(unused_mut)]
    let mut v: Vec<(&'static str, extern "C" fn())> = vec![];
    #[cfg(feature = "g_eval")]
    v.extend_from_slice(eval::TABLE);
    #[cfg(feature = "g_eval")]
    v.extend_from_slice(err::TABLE);
    #[cfg(feature = "g_eval")]
    v.extend_from_slice(long::TABLE);
    #[cfg(feature = "g_tok")]
    v.extend_from_slice(tok::TABLE);
    #[cfg(feature = "g_tok")]
    v.extend_from_slice(txt::TABLE);
    #[cfg(feature = "g_ci")]
    v.extend_from_slice(ci::TABLE);
    #[cfg(feature = "g_bin")]
    v.extend_from_slice(bin_::TABLE);
    #[cfg(feature = "g_dec")]
    v.extend_from_slice(dec::TABLE);
    #[cfg(feature = "g_cplx")]
    v.extend_from_slice(cplx::TABLE);
    #[cfg(feature = "g_ctx")]
    v.extend_from_slice(ctx::TABLE);
    #[cfg(feature = "g_num")]
    v.extend_from_slice(num::TABLE);
    #[cfg(feature = "g_num")]
    v.extend_from_slice(fun::TABLE);
    #[cfg(feature = "g_num")]
    v.extend_from_slice(wrap::TABLE);
    v
}
