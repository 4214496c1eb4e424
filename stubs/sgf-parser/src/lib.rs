//! sgf-parser 2.6.0 with its parser replaced: the types and the tree iteration are the crate's own
//! source, `parse` returns whatever tree the harness installed (the text -> tree step is outside
//! the claim; the native replay goes through the real parser).
mod error;
mod node;
mod token;
mod tree;

pub use crate::error::{SgfError, SgfErrorKind};
pub use crate::node::GameNode;
pub use crate::token::{Action, Color, DisplayNodes, Encoding, Game, Outcome, RuleSet, SgfToken};
pub use crate::tree::GameTree;

pub static mut NEXT: Option<GameTree> = None;

#[allow(static_mut_refs)]
pub fn parse(_input: &str) -> Result<GameTree, SgfError> {
    match unsafe { NEXT.take() } {
        Some(t) => Ok(t),
        None => Err(SgfErrorKind::ParseError.into()),
    }
}
