pub mod api;
pub mod case;
pub mod driver;
pub mod family;
pub mod gen_;
pub mod linalg;
pub mod props;
pub mod refm;
pub mod rng;
pub mod special;
