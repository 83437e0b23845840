pub mod checks;
pub mod equiv;
pub mod eval;
pub mod jsongen;
pub mod run;
pub mod schemagen;
pub mod src;
pub use run::{fail, guard, hash64, CaseResult, Check, Fail, Stats};
pub use src::Src;
pub mod dynty;
pub mod dialect;
pub mod lab;
pub mod labrun;
pub mod tyspec;
pub mod ext;
pub mod builtins;
pub mod values;
