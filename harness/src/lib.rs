//! Uniform-ABI entry points over the public API of qcd-sme.  The same crate is
//! lowered to LLVM IR (input of the symbolic executor) and to a cdylib (native
//! replay of counterexamples and validation of the encoding).
#![allow(clippy::missing_safety_doc, non_snake_case, unused_mut, unused_variables)]
pub mod rt;
pub mod gen;
pub mod extra;
