pub mod argv;
pub mod build;
pub mod checks;
pub mod clapcmp;
pub mod emit;
pub mod help;
pub mod hostile;
pub mod invalid;
pub mod model;
pub mod pairs;
pub mod process;
pub mod run;
pub mod schema;
pub mod spec;
pub mod src;
pub mod types;
