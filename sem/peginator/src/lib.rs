//! What hun_law_grammar uses of the runtime of the `peginator` crate, which does not exist in this
//! sandbox. The parser itself is generated by /verif/tools/peg.py.
#[derive(Debug, Clone)]
pub struct ParseError;
impl std::fmt::Display for ParseError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "text does not match the grammar")
    }
}
impl std::error::Error for ParseError {}
#[derive(Debug, Default, Clone)]
pub struct ParseSettings {}
pub trait ParseTracer {}
#[derive(Debug)]
pub struct NoopTracer;
impl ParseTracer for NoopTracer {}
pub trait PegParserAdvanced<U>: Sized {
    fn parse_advanced<T: ParseTracer>(s: &str, settings: &ParseSettings, user: U) -> Result<Self, ParseError>;
}
