pub mod decode;
pub mod encode;
pub mod gen;
pub mod rng;
pub mod schema;
pub mod glue;
