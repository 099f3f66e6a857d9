//! Model of the environment procstar runs in, shared by the stand-in crates.
//!
//! Under Kani every nondeterministic choice (`nd`) is a symbolic variable.
//! Natively (replay of a counterexample) the values come from a file.
#![allow(static_mut_refs, unused)]

pub mod cstr;
pub mod kernel;
pub mod nd;
pub mod rt;

/// Stops exploring this path: the modelled process has exec'ed or exited.
#[cfg(kani)]
pub fn end_path() -> ! {
    kani::assume(false);
    loop {}
}

#[cfg(not(kani))]
pub fn end_path() -> ! {
    println!("REPLAY-PATH-END");
    std::process::exit(0)
}
