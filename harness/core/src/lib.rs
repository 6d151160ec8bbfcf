#[macro_use]
pub mod engine;
pub mod canon;
pub mod ext;
pub mod gen_;
pub mod interp;
pub mod props;
pub mod refval;
pub mod driver;
pub mod pyserve;
