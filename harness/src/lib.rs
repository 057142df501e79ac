//! Shared parts of the conformance harness.
#![allow(incomplete_features)]
#![feature(type_alias_impl_trait, impl_trait_in_assoc_type)]
pub mod json;
pub mod rng;
pub mod prov;
pub mod trace;
pub mod run;
pub mod observe;
pub mod gen_lp;
pub mod gf;
pub mod mps;
