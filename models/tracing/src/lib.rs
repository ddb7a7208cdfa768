//! Model of `tracing`: every event is dropped. Nothing the properties speak about is observable
//! through log output, so the field expressions of the macros are not evaluated.
pub use tracing_attributes::instrument;
#[macro_export] macro_rules! trace { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! info { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! error { ($($t:tt)*) => {{}}; }
#[macro_export] macro_rules! event { ($($t:tt)*) => {{}}; }
pub struct Level;
impl Level { pub const TRACE: Level = Level; pub const DEBUG: Level = Level; pub const INFO: Level = Level; pub const WARN: Level = Level; pub const ERROR: Level = Level; }
#[derive(Clone)]
pub struct Span;
pub struct Entered;
impl Span { pub fn current() -> Self { Span } pub fn none() -> Self { Span } pub fn enter(&self) -> Entered { Entered } pub fn in_scope<R>(&self, f: impl FnOnce() -> R) -> R { f() } }
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! enabled { ($($t:tt)*) => { false }; }
pub trait Instrument: Sized { fn instrument(self, _s: Span) -> Self { self } fn in_current_span(self) -> Self { self } }
impl<T: Sized> Instrument for T {}
