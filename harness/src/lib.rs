#![feature(macro_metavar_expr, cfg_sanitize)]
pub mod rng;
pub mod alloc;
#[macro_use]
pub mod run;
pub mod repr;
pub mod trees;
pub mod keys;
pub mod dynt;
pub mod checks;
pub mod vals;
pub mod cont;
pub mod hist;
pub mod histcases;
pub mod cases;
#[macro_use]
pub mod gen;
pub mod ghost;
pub mod meter;
