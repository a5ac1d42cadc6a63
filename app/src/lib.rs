//! Harnesses of the command line application and of the server's evaluation service.  The sources of
//! both are included here as they are; output goes to a buffer instead of the terminal.
#![allow(dead_code, unused_imports, unused_macros, macro_expanded_macro_exports_accessed_by_absolute_paths)]
macro_rules! print { ($($t:tt)*) => { $crate::io::out(format_args!($($t)*)) }; }
macro_rules! eprint { ($($t:tt)*) => { $crate::io::err(format_args!($($t)*)) }; }
macro_rules! println { () => { $crate::io::out(format_args!("\n")) }; ($f:expr $(, $($t:tt)*)?) => {{ $crate::io::out(format_args!($f $(, $($t)*)?)); $crate::io::out(format_args!("\n")) }}; }
macro_rules! eprintln { () => { $crate::io::err(format_args!("\n")) }; ($f:expr $(, $($t:tt)*)?) => {{ $crate::io::err(format_args!($f $(, $($t)*)?)); $crate::io::err(format_args!("\n")) }}; }
include!("/repo/eval/src/main.rs");
#[path = "/repo/prexel-server/src/models/mod.rs"]
pub mod models;
#[path = "/repo/prexel-server/src/services/mod.rs"]
pub mod services;
#[path = "../../harness/src/sym.rs"]
pub mod sym;
pub mod io;
pub mod app;
pub mod sess;

#[macro_export]
macro_rules! entry {
    ($($n:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $n() $body )*
        pub static TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($n), $n as extern "C" fn()) ),* ];
    };
}
pub fn table() -> Vec<(&'static str, extern "C" fn())> { let mut v = app::TABLE.to_vec(); v.extend_from_slice(sess::TABLE); v }
