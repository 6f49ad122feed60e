//! An independent model of the PICA+ format, the expression languages and
//! the data the monitors feed to pica-rs.  Nothing in here depends on
//! pica-rs.
pub mod expr;
pub mod fmt;
pub mod generate;
pub mod mon;
pub mod query;
pub mod rec;
pub mod rng;
pub mod text;
