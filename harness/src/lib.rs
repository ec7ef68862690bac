#![feature(try_trait_v2, pattern)]
#![cfg_attr(all(pm2_nightly, feature = "proc-macro"), feature(proc_macro_span, proc_macro_def_site))]
#![allow(non_snake_case, dead_code, unused_mut, unused_imports, unexpected_cfgs, deprecated, clippy::all)]
#[cfg(feature = "proc-macro")]
extern crate proc_macro;
pub mod vp;
pub mod shims;
#[cfg(pm2_conf)]
pub mod conf;
#[cfg(pm2_conf)]
pub mod smoke;
pub mod h;
#[cfg(feature = "proc-macro")]
pub mod c01;
#[cfg(feature = "proc-macro")]
pub mod c02;
#[cfg(feature = "proc-macro")]
pub mod c03;
#[cfg(feature = "proc-macro")]
pub mod c04;
#[cfg(feature = "proc-macro")]
pub mod c05;
pub mod c06;
pub mod c08;
pub mod c25;
pub mod c26;
pub mod c28;
pub mod c29;
pub mod c07;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c23;
pub mod reflex;
pub mod size;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
#[cfg(feature = "span-locations")]
pub mod c20;
#[cfg(feature = "span-locations")]
pub mod c21;
#[cfg(feature = "span-locations")]
pub mod c22;
#[cfg(procmacro2_semver_exempt)]
pub mod c24;
