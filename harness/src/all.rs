#[macro_use]
pub mod sym;
pub mod dump;
pub mod hist;
pub mod many;
pub mod idx;
pub mod img;
pub mod open;
pub mod pgs;
pub mod text;
pub mod vob;

#[allow(dead_code)]
mod table {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/list.rs"));
}
#[allow(unused_imports)]
pub use table::HARNESSES;
