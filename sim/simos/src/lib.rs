//! simos: the operating-system seam of the simulators.
//!
//! This crate defines the libc symbols through which Rust's standard library (and everything
//! built on it) reaches the file system, the standard streams, randomness, clocks, the process
//! id and process creation. Linked into a simulator binary they replace libc's for that binary;
//! loaded with LD_PRELOAD (crate `preload`) they replace them for the real `styx` executable.
//!
//! Everything is off until [`init`] is called. Then:
//!  * every call that touches the scratch root (or the standard streams, when enabled) is one
//!    numbered *step*; the plan says which steps fail, are cut short, are interrupted, or crash
//!    the process;
//!  * each step is appended to a log from which the caller can rebuild what a power loss at any
//!    point could leave on disk;
//!  * any attempt to change anything outside the scratch root is refused (EACCES) and logged as
//!    an escape;
//!  * getrandom, the clocks and getpid are functions of the plan.

#![allow(invalid_runtime_symbol_definitions)]

pub mod disk;
pub mod rng;
mod sym;

pub use sym::{calls_seen, init, reset_clock, set_clock_ns, shutdown, steps, Plan};

/// Exit code of a simulated crash.
pub const CRASH_EXIT: i32 = 86;

/// What a fault does to the step it is attached to.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The call fails with this errno and has no effect.
    Err(i32),
    /// Only the first n bytes of a read or write are transferred.
    Short(usize),
    /// The process dies just before the step.
    Crash,
    /// The first n bytes are transferred, then the process dies.
    Torn(usize),
    /// The step completes, then the process dies.
    CrashAfter,
}

/// A fault that stays: from a step on, every call of a class fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sticky {
    pub from: u32,
    pub class: Class,
    pub errno: i32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Read,
    Write,
    Meta,
    Sync,
    Stat,
    Open,
    Spawn,
    Stdout,
    Stdin,
}

impl Class {
    pub fn name(self) -> &'static str {
        match self {
            Class::Read => "read",
            Class::Write => "write",
            Class::Meta => "meta",
            Class::Sync => "sync",
            Class::Stat => "stat",
            Class::Open => "open",
            Class::Spawn => "spawn",
            Class::Stdout => "stdout",
            Class::Stdin => "stdin",
        }
    }
    pub fn parse(s: &str) -> Option<Class> {
        Some(match s {
            "read" => Class::Read,
            "write" => Class::Write,
            "meta" => Class::Meta,
            "sync" => Class::Sync,
            "stat" => Class::Stat,
            "open" => Class::Open,
            "spawn" => Class::Spawn,
            "stdout" => Class::Stdout,
            "stdin" => Class::Stdin,
            _ => return None,
        })
    }
}
