//! Interface between harnesses and the symbolic executor. The same symbols are provided natively by sx_native.c,
//! which reads the input values from a file, so that a counterexample can be replayed on the compiled code.
#![no_std]
include!("api.rs");
