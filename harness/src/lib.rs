//! Harnesses (see DESIGN.md). The same files are compiled by rustc to LLVM IR for the symbolic executor, with model
//! crates for the environment, and, by /verif/native, against the real ones.
#![allow(warnings)]
#[macro_use]
mod common;
mod env;
mod spec;
mod script;
#[cfg(feature = "routing")] mod routing;
#[cfg(feature = "captures")] mod captures;
#[cfg(feature = "methods")] mod methods;
#[cfg(feature = "guards")] mod guards;
#[cfg(feature = "forward")] mod forward;
#[cfg(feature = "query")] mod query;
#[cfg(feature = "body")] mod body;
#[cfg(feature = "error")] mod error;
#[cfg(feature = "service")] mod service;
#[cfg(feature = "unwind")] mod unwind;
#[cfg(feature = "blocking")] mod blocking;
#[cfg(feature = "context")] mod context;
#[cfg(feature = "whole")] mod whole;
#[cfg(feature = "large")] mod large;
#[cfg(feature = "turns")] mod turns;
#[cfg(feature = "mix")] mod mix;
#[cfg(feature = "headers")] mod headers;
#[cfg(feature = "declare")] mod declare;
