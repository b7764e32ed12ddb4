//! Plans, recorded histories and oracles. Never instrumented: nothing in here is a preemption point.
pub mod hist;
pub mod oracle;
pub mod oracle2;
pub mod judge;
pub mod gen;
pub mod la;
pub mod plan;
