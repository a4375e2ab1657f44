//! Stand-in for the verifier: identifiers as plain strings, no spans.
#[derive(Clone, Copy, Debug)]
pub struct Span;
impl Span {
    pub fn call_site() -> Span { Span }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ident(pub &'static str);
impl Ident {
    pub fn new(s: &str, _: Span) -> Ident { // the text outlives the proof
        Ident(unsafe { core::mem::transmute::<&str, &'static str>(s) }) }
    pub fn span(&self) -> Span { Span }
    // as the real one through Display, without its formatting machinery
    #[allow(clippy::inherent_to_string_shadow_display)]
    pub fn to_string(&self) -> String { String::from(self.0) }
}
impl core::fmt::Display for Ident {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(self.0) }
}
