pub use facet_testhelpers_macros::test;
pub fn setup() {}
