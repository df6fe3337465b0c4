pub mod codec;
pub mod gen;
pub mod json;
pub mod modes;
pub mod mon;
pub mod primgen;
pub mod refdec;
pub mod refenc;
pub mod rng;
pub mod run;
pub mod schema;
pub mod types;
pub mod ub;
