//! `std` as the symbolic build sees it: everything of the real `std`, except that
//! `HashMap`/`HashSet` are insertion-ordered linear-scan models of the same abstract
//! type (SipHash with random keys cannot be encoded).
pub use ::std::*;
pub mod collections;
