//! Modules given to the type generator, written by checks/typegen_rules.py (TYPEGEN_RULES).
#![allow(dead_code, unused, nonstandard_style, elided_lifetimes_in_paths)]
include!(env!("TYPEGEN_RULES"));
