//! Conformance drivers: run the real rgeometry code and record its observable
//! behaviour as traces that TLC validates against the specification.
pub mod gen;
pub mod json;
pub mod rt;
pub mod sc;
#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;
