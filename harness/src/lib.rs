//! Model checking machinery for soupy. Each check is a binary, see `src/bin`.

pub mod charref;
pub mod dom;
pub mod engine;
pub mod gen;
pub mod iters;
pub mod lits;
pub mod model;
pub mod runner;
pub mod strictfam;
pub mod tree;
pub mod xmlfam;
pub mod xmlmodel;
pub mod qmodel;
