pub trait Automaton {
    fn accepts(&self, key: &[u8]) -> bool;
    fn starts_with(self) -> StartsWith<Self> where Self: Sized { StartsWith(self) }
}
impl<'a, T: Automaton> Automaton for &'a T { fn accepts(&self, k: &[u8]) -> bool { (*self).accepts(k) } }
#[derive(Clone, Debug)]
pub struct Subsequence<'a>(&'a [u8]);
impl<'a> Subsequence<'a> { pub fn new(s: &'a str) -> Subsequence<'a> { Subsequence(s.as_bytes()) } }
impl Automaton for Subsequence<'_> {
    fn accepts(&self, key: &[u8]) -> bool { let mut it = key.iter(); self.0.iter().all(|c| it.any(|k| k == c)) }
}
#[derive(Clone, Debug)]
pub struct Str<'a>(&'a [u8]);
impl<'a> Str<'a> { pub fn new(s: &'a str) -> Str<'a> { Str(s.as_bytes()) } }
impl Automaton for Str<'_> { fn accepts(&self, key: &[u8]) -> bool { self.0 == key } }
#[derive(Clone, Debug)]
pub struct StartsWith<A>(A);
impl<A: Automaton> Automaton for StartsWith<A> { fn accepts(&self, key: &[u8]) -> bool { (0..=key.len()).any(|i| self.0.accepts(&key[..i])) } }
#[derive(Clone, Debug)]
pub struct AlwaysMatch;
impl Automaton for AlwaysMatch { fn accepts(&self, _: &[u8]) -> bool { true } }
