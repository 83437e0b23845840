pub mod graph;
pub mod schemaobj;
pub mod transforms;
pub mod generics;
pub mod features;
pub mod rejection;
pub mod metadata;
pub mod validation;
pub mod value;
pub mod lab;
pub mod derive;
pub mod builtin;
pub mod derived;
pub mod recursion;
pub mod wrappers;
pub mod spelling;
