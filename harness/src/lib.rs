pub mod alloc;
pub mod case;
pub mod evolve;
pub mod gen;
pub mod ladder;
pub mod model;
pub mod props;
pub mod rng;
pub mod runner;
pub mod snap;
