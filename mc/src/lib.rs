pub mod engine;
pub mod model;
pub mod out;
pub mod props;
