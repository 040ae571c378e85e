//! Shared machinery of the model checkers: token model, reference grammar
//! interpreter, exhaustive enumerators and the exploration driver.
pub mod tok;
pub mod gram;
pub mod spec;
pub mod run;
pub mod explore;
