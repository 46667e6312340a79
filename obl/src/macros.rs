/// Declares proof obligations.  Each one becomes a Kani harness (module `h`),
/// an entry point for the LLVM-level verifier and an entry of the native table
/// `TABLE` used for replay and search.
#[macro_export]
macro_rules! obligations {
    ($prop:literal; $( $(#[kani::$attr:ident($($aa:tt)*)])* fn $name:ident() $body:block )*) => {
        $( pub fn $name() $body )*
        #[cfg(kani)]
        mod h {
            $( #[kani::proof] $(#[kani::$attr($($aa)*)])* fn $name() { super::$name(); kani::cover!(true, "reached"); } )*
        }
        #[cfg(feature = "llsym")]
        mod l {
            $( #[export_name = concat!("llsym_", stringify!($name))] pub extern "C" fn $name() { super::$name() } )*
        }
        #[cfg(not(any(kani, feature = "llsym")))]
        pub static TABLE: &[(&str, &str, fn())] = &[ $( ($prop, stringify!($name), $name) ),* ];
    };
}

/// Obligations that only the compiled code can run (bounded search and replay).
#[macro_export]
macro_rules! native_obligations {
    ($( $prop:literal fn $name:ident() $body:block )*) => {
        $( pub fn $name() $body )*
        pub static TABLE: &[(&str, &str, fn())] = &[ $( ($prop, stringify!($name), $name) ),* ];
    };
}
