pub mod css;
pub mod ctx;
pub mod fuel;
pub mod prog;
pub mod rng;
pub mod runner;

// What needs the pipeline API of the crate under test.
pub mod drive;
pub mod gen;
pub mod refparse;
pub mod rec;
pub mod scene;
pub mod xml;
