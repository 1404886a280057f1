#![cfg_attr(feature = "nightly", allow(incomplete_features))]
#![cfg_attr(feature = "nightly", feature(generic_const_exprs))]
#![allow(clippy::all)]
//! Property-based testing of EASTL-rs: see /verif/DESIGN.md.
mod core;
mod driver;
mod env;
mod eng;
mod props;

#[global_allocator]
static SPY: env::Spy = env::Spy;

fn main() {
    driver::main()
}
