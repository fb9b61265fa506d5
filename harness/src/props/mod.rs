pub mod parse;
pub mod stack;
pub mod flow;
#[macro_use]
pub mod texts;
pub mod bare;
pub mod drops;
pub mod threads;
pub mod more;
pub mod extra;
