//! Stand-in for the verifier: the types a parsed unit expression is made of, as plain data.  Parsing
//! itself is out of the verifier's reach and not called there (the native build runs the real one).
pub use proc_macro2::{Ident, Span};
pub type Result<T> = core::result::Result<T, Error>;
#[derive(Clone, Debug)]
pub struct Error;
impl Error {
    pub fn new<T: core::fmt::Display>(_: Span, _: T) -> Error { Error }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("error") }
}
/// An integer literal that has been parsed: its value.
#[derive(Clone, Debug)]
pub struct LitInt(pub i64);
impl LitInt {
    pub fn base10_parse<N: TryFrom<i64>>(&self) -> Result<N> { N::try_from(self.0).map_err(|_| Error) }
    pub fn span(&self) -> Span { Span }
    pub fn suffix(&self) -> &str { "" }
}
pub mod parse {
    pub use super::Result;
    pub struct ParseBuffer;
    pub type ParseStream<'a> = &'a ParseBuffer;
    pub trait Parse: Sized {
        fn parse(input: ParseStream) -> Result<Self>;
    }
    impl ParseBuffer {
        pub fn peek<T>(&self, _: T) -> bool { unreachable!() }
        pub fn parse<T: Parse>(&self) -> Result<T> { T::parse(self) }
        pub fn call<T>(&self, f: fn(ParseStream) -> Result<T>) -> Result<T> { f(self) }
        pub fn is_empty(&self) -> bool { unreachable!() }
    }
}
pub mod ext {
    pub trait IdentExt: Sized {
        fn parse_any(_: crate::parse::ParseStream) -> crate::Result<Self> { unreachable!() }
    }
    impl IdentExt for crate::Ident {}
}
macro_rules! tokens {
    ($($t:ident)*) => {$(
        #[derive(Clone, Copy, Debug, Default)]
        pub struct $t;
        impl crate::parse::Parse for $t {
            fn parse(_: crate::parse::ParseStream) -> crate::Result<Self> { unreachable!() }
        }
    )*};
}
pub mod token {
    tokens! { Caret Dot Slash Star Paren Comma Minus Plus }
}
impl parse::Parse for Ident {
    fn parse(_: parse::ParseStream) -> Result<Self> { unreachable!() }
}
impl parse::Parse for LitInt {
    fn parse(_: parse::ParseStream) -> Result<Self> { unreachable!() }
}
#[macro_export]
macro_rules! parenthesized {
    ($c:ident in $i:expr) => {{ let _ = $i; $c = $crate::parse::ParseBuffer; }};
}
