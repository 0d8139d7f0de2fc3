pub mod case;
pub mod cov;
pub mod ctx;
pub mod encs;
pub mod gen;
pub mod model;
pub mod props;
pub mod props2;
pub mod rng;
pub mod vast;
pub mod verify;
pub mod watch;
