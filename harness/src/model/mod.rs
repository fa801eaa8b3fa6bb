pub mod cff;
pub mod t2;
pub mod tables;
