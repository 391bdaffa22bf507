//! Stand-in for `backtrace` (used by `failure` only to capture traces of errors): captures nothing.
#[derive(Clone, Debug)]
pub struct Backtrace;
impl Backtrace {
    pub fn new() -> Self { Backtrace }
    pub fn new_unresolved() -> Self { Backtrace }
    pub fn resolve(&mut self) {}
}
