pub mod abs;
pub mod j;
