pub mod host;
pub mod model;
pub mod ops;
pub mod props;
pub mod run;
pub mod sink;
pub mod values;

pub use ops::Reg;
pub use run::run_main;
