use std::error::Error;
use std::fmt;

#[derive(Debug)]
pub struct SgfError {
    pub kind: SgfErrorKind,
    source: Option<Box<dyn Error + Send + Sync + 'static>>,
}
impl fmt::Display for SgfError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.kind.fmt(f)
    }
}
#[derive(Debug, Eq, PartialEq)]
pub enum SgfErrorKind {
    ParseError,
    VariationNotFound,
    InvalidRootTokenPlacement,
}
impl fmt::Display for SgfErrorKind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            SgfErrorKind::ParseError => "Error parsing SGF file",
            SgfErrorKind::VariationNotFound => "Variation not found",
            SgfErrorKind::InvalidRootTokenPlacement => "Root token found in a non root node",
        })
    }
}
impl Error for SgfError {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.source.as_ref().map(|b| b.as_ref() as &(dyn Error + 'static))
    }
}
impl From<SgfErrorKind> for SgfError {
    fn from(kind: SgfErrorKind) -> SgfError {
        SgfError { kind, source: None }
    }
}
