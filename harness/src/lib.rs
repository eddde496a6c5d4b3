#![allow(dead_code, unused)]
#![cfg_attr(not(kani), feature(bigint_helper_methods, exact_size_is_empty))]

#[macro_use]
pub mod nd;
macro_rules! mods {
    ($($f:literal $m:ident;)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, &'static str, &'static str, u8, fn())> {
            let mut v: Vec<(&'static str, &'static str, &'static str, u8, fn())> = Vec::new();
            $( #[cfg(feature = $f)] v.extend($m::ALL.iter().map(|h| (stringify!($m), h.0, h.1, h.2, h.3))); )*
            v
        }
    };
}
mods! {
    "abe" abtxt;
    "abe" ast;
    "abe" evalx;
    "abe" bytefn;
    "bytefmt" bfmt;
    "abe" conf;
    "identity" ident;
    "ipcbus" bus;
    "pkt" space;
    "pkt" point;
    "core" pred;
    "pkt" pktk;
    "core" predk;
    "core" mutate;
    "core" stamps;
    "core" stampk;
    "core" preds;
    "core" ptest;
    "core" watch;
    "store" store;
}
