//! Contracts for coffer: executable specifications written from the JVM specification and the
//! WTF-8 definition, and the harnesses that state them on coffer's real functions.
//!
//! Every harness is generic over the source of its inputs. Kani instantiates it with symbolic
//! values (a proof, complete or bounded as the harness declares); natively it runs on a tape of
//! concrete values (replay of a counterexample) or on generated values (bounded stand-in).
#![allow(clippy::all, unused)]

pub mod core;
pub mod spec;
#[cfg(not(kani))]
pub mod bytecode;
#[cfg(not(kani))]
pub mod gen;
#[cfg(not(kani))]
pub mod gen2;
#[cfg(not(kani))]
pub mod classfile;
#[cfg(not(kani))]
pub mod native;
#[cfg(not(kani))]
pub mod alloc_count;
pub mod props;
