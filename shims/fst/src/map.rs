use crate::{automaton::{AlwaysMatch, Automaton}, raw::{Error, IndexedValue}, Streamer};
use std::collections::BTreeMap;
/// `data` is the serialised sorted list of (key, value).
#[derive(Clone)]
pub struct Map<D> { data: D, ents: Vec<(Vec<u8>, u64)> }
fn decode(d: &[u8]) -> Result<Vec<(Vec<u8>, u64)>, Error> {
    let mut i = 0; let mut v = vec![];
    while i < d.len() {
        let n = u32::from_le_bytes(d.get(i..i + 4).ok_or(Error::Format)?.try_into().unwrap()) as usize; i += 4;
        let k = d.get(i..i + n).ok_or(Error::Format)?.to_vec(); i += n;
        let x = u64::from_le_bytes(d.get(i..i + 8).ok_or(Error::Format)?.try_into().unwrap()); i += 8;
        v.push((k, x));
    }
    Ok(v)
}
impl<D: AsRef<[u8]>> Map<D> {
    pub fn new(data: D) -> crate::Result<Map<D>> { let ents = decode(data.as_ref())?; Ok(Map { data, ents }) }
    pub fn len(&self) -> usize { self.ents.len() }
    pub fn is_empty(&self) -> bool { self.ents.is_empty() }
    pub fn as_fst(&self) -> Fst<'_> { Fst(self.data.as_ref()) }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Option<u64> { self.ents.iter().find(|e| e.0 == k.as_ref()).map(|e| e.1) }
    pub fn search<A: Automaton>(&self, a: A) -> Stream { Stream(self.ents.iter().filter(|(k, _)| a.accepts(k)).cloned().collect(), 0) }
    pub fn stream(&self) -> Stream { self.search(AlwaysMatch) }
}
pub struct Fst<'a>(&'a [u8]);
impl Fst<'_> { pub fn size(&self) -> usize { self.0.len() } pub fn as_bytes(&self) -> &[u8] { self.0 } }
impl<D: AsRef<[u8]>> std::fmt::Debug for Map<D> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Map(..)") } }
impl Default for Map<Vec<u8>> { fn default() -> Self { Map { data: vec![], ents: vec![] } } }
pub struct Stream(Vec<(Vec<u8>, u64)>, usize);
impl<'a> Streamer<'a> for Stream {
    type Item = (&'a [u8], u64);
    fn next(&'a mut self) -> Option<Self::Item> { let e = self.0.get(self.1)?; self.1 += 1; Some((&e.0, e.1)) }
}
pub struct MapBuilder<W> { out: W, last: Option<Vec<u8>> }
impl MapBuilder<Vec<u8>> {
    pub fn memory() -> Self { MapBuilder { out: vec![], last: None } }
    pub fn insert<K: AsRef<[u8]>>(&mut self, k: K, v: u64) -> crate::Result<()> {
        let k = k.as_ref();
        if let Some(l) = &self.last {
            if k == &l[..] { return Err(Error::DuplicateKey { got: k.to_vec() }); }
            if k < &l[..] { return Err(Error::OutOfOrder { previous: l.clone(), got: k.to_vec() }); }
        }
        self.last = Some(k.to_vec());
        self.out.extend((k.len() as u32).to_le_bytes()); self.out.extend(k); self.out.extend(v.to_le_bytes());
        Ok(())
    }
    pub fn into_inner(self) -> crate::Result<Vec<u8>> { Ok(self.out) }
    pub fn into_map(self) -> Map<Vec<u8>> { Map::new(self.out).unwrap() }
}
#[derive(Default)]
pub struct OpBuilder<'m> { streams: Vec<Stream>, _p: std::marker::PhantomData<&'m ()> }
impl<'m> OpBuilder<'m> {
    pub fn new() -> Self { OpBuilder { streams: vec![], _p: std::marker::PhantomData } }
    #[allow(clippy::should_implement_trait)]
    pub fn add(mut self, s: Stream) -> Self { self.push(s); self }
    pub fn push(&mut self, s: Stream) { self.streams.push(s) }
    pub fn union(self) -> Union<'m> {
        let mut m: BTreeMap<Vec<u8>, Vec<IndexedValue>> = BTreeMap::new();
        for (index, s) in self.streams.into_iter().enumerate() { for (k, value) in s.0 { m.entry(k).or_default().push(IndexedValue { index, value }); } }
        Union { items: m.into_iter().collect(), pos: 0, _p: std::marker::PhantomData }
    }
}
pub struct Union<'m> { items: Vec<(Vec<u8>, Vec<IndexedValue>)>, pos: usize, _p: std::marker::PhantomData<&'m ()> }
impl<'a, 'm> Streamer<'a> for Union<'m> {
    type Item = (&'a [u8], &'a [IndexedValue]);
    fn next(&'a mut self) -> Option<Self::Item> { let e = self.items.get(self.pos)?; self.pos += 1; Some((&e.0, &e.1)) }
}
