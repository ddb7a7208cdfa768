//! Model of `anyhow`: an error is an opaque token; only Ok/Err is observable.
use std::fmt;
pub struct Error { _p: () }
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    pub fn new<E>(_e: E) -> Self where E: std::error::Error + Send + Sync + 'static { std::mem::forget(_e); Error { _p: () } }
    pub fn msg<M>(_m: M) -> Self where M: fmt::Display + fmt::Debug + Send + Sync + 'static { std::mem::forget(_m); Error { _p: () } }
    pub fn __opaque() -> Self { Error { _p: () } }
    pub fn context<C>(self, _c: C) -> Self where C: fmt::Display + Send + Sync + 'static { self }
}
impl fmt::Debug for Error { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for Error { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl<E> From<E> for Error where E: std::error::Error + Send + Sync + 'static { fn from(e: E) -> Self { std::mem::forget(e); Error { _p: () } } }
pub trait Context<T, E> {
    fn context<C>(self, c: C) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static;
    fn with_context<C, F>(self, f: F) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C;
}
impl<T, E> Context<T, E> for core::result::Result<T, E> {
    fn context<C>(self, _c: C) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static { match self { Ok(v) => Ok(v), Err(e) => { std::mem::forget(e); Err(Error::__opaque()) } } }
    fn with_context<C, F>(self, _f: F) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C { match self { Ok(v) => Ok(v), Err(e) => { std::mem::forget(e); Err(Error::__opaque()) } } }
}
impl<T> Context<T, std::convert::Infallible> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static { self.ok_or_else(Error::__opaque) }
    fn with_context<C, F>(self, _f: F) -> Result<T, Error> where C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C { self.ok_or_else(Error::__opaque) }
}
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::__opaque() }; }
#[macro_export] macro_rules! format_err { ($($t:tt)*) => { $crate::Error::__opaque() }; }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return ::core::result::Result::Err($crate::Error::__opaque()) }; }
#[macro_export] macro_rules! ensure { ($c:expr $(, $($t:tt)*)?) => { if !($c) { return ::core::result::Result::Err($crate::Error::__opaque()) } }; }

