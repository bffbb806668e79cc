#![recursion_limit = "256"]
pub mod case;
pub mod comps;
pub mod model;
pub mod pat;
pub mod run;
