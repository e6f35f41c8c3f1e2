//! The generated call sites; compiled once with and once without debug assertions.
#![allow(deprecated, unused_imports, clippy::all)]
include!("../../../build/sites.rs");
