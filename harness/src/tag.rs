//! Errors of readers and writers which can be told apart from others of the same kind.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::io::{Error, ErrorKind};

thread_local! { static OF_CALL: RefCell<Vec<(ErrorKind, u64)>> = const { RefCell::new(Vec::new()) }; static NEXT: Cell<u64> = const { Cell::new(0) }; }

#[derive(Debug)]
struct Tag(u64);
impl fmt::Display for Tag { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "fault {}", self.0) } }
impl std::error::Error for Tag {}

/// What a reader or writer fails with
pub fn error(k: ErrorKind) -> Error {
    let id = NEXT.get();
    NEXT.set(id + 1);
    OF_CALL.with_borrow_mut(|l| l.push((k, id)));
    Error::new(k, Tag(id))
}
/// Before a call
pub fn clear() { OF_CALL.with_borrow_mut(Vec::clear) }
/// The kind of an error. If there were any of that kind in this call, it must be one of them.
pub fn kind(e: &Error) -> String {
    let id = e.get_ref().and_then(|t| t.downcast_ref::<Tag>()).map(|t| t.0);
    OF_CALL.with_borrow(|l| {
        let replaced = l.iter().any(|(k, _)| *k == e.kind()) && !l.iter().any(|(_, i)| Some(*i) == id);
        format!("{}{:?}", if replaced { "replaced " } else { "" }, e.kind())
    })
}
