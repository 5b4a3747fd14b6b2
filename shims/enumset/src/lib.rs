use std::{fmt, hash::{Hash, Hasher}, iter::FromIterator, marker::PhantomData, ops::*};
pub use enumset_derive::EnumSetType;
/// # Safety
/// derive only
pub unsafe trait EnumSetType: Copy + Eq {
    const COUNT: u32;
    fn idx(self) -> u32;
    fn from_idx(i: u32) -> Self;
}
pub struct EnumSet<T: EnumSetType>(u64, PhantomData<T>);
impl<T: EnumSetType> Copy for EnumSet<T> {}
impl<T: EnumSetType> Clone for EnumSet<T> { fn clone(&self) -> Self { *self } }
impl<T: EnumSetType> PartialEq for EnumSet<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: EnumSetType> PartialEq<T> for EnumSet<T> { fn eq(&self, o: &T) -> bool { *self == EnumSet::only(*o) } }
impl<T: EnumSetType> Eq for EnumSet<T> {}
impl<T: EnumSetType> PartialOrd for EnumSet<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T: EnumSetType> Ord for EnumSet<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
impl<T: EnumSetType> Hash for EnumSet<T> { fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<T: EnumSetType> Default for EnumSet<T> { fn default() -> Self { Self::empty() } }
impl<T: EnumSetType> EnumSet<T> {
    #[doc(hidden)] pub const fn __from_bits(b: u64) -> Self { EnumSet(b, PhantomData) }
    pub const EMPTY: Self = EnumSet(0, PhantomData);
    pub const fn new() -> Self { EnumSet(0, PhantomData) }
    pub const fn empty() -> Self { EnumSet(0, PhantomData) }
    pub fn only(t: T) -> Self { EnumSet(1 << t.idx(), PhantomData) }
    pub fn all() -> Self { EnumSet(if T::COUNT >= 64 { u64::MAX } else { (1u64 << T::COUNT) - 1 }, PhantomData) }
    pub fn len(&self) -> usize { self.0.count_ones() as usize }
    pub fn is_empty(&self) -> bool { self.0 == 0 }
    pub fn clear(&mut self) { self.0 = 0 }
    pub fn is_disjoint(&self, o: impl Into<Self>) -> bool { self.0 & o.into().0 == 0 }
    pub fn is_superset(&self, o: impl Into<Self>) -> bool { let o = o.into(); self.0 & o.0 == o.0 }
    pub fn is_subset(&self, o: impl Into<Self>) -> bool { o.into().is_superset(*self) }
    pub fn union(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 | o.into().0, PhantomData) }
    pub fn intersection(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 & o.into().0, PhantomData) }
    pub fn difference(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 & !o.into().0, PhantomData) }
    pub fn symmetrical_difference(&self, o: impl Into<Self>) -> Self { EnumSet(self.0 ^ o.into().0, PhantomData) }
    pub fn complement(&self) -> Self { EnumSet(!self.0 & Self::all().0, PhantomData) }
    pub fn contains(&self, t: T) -> bool { self.0 >> t.idx() & 1 == 1 }
    pub fn insert(&mut self, t: T) -> bool { let c = !self.contains(t); self.0 |= 1 << t.idx(); c }
    pub fn remove(&mut self, t: T) -> bool { let c = self.contains(t); self.0 &= !(1 << t.idx()); c }
    pub fn insert_all(&mut self, o: impl Into<Self>) { self.0 |= o.into().0 }
    pub fn remove_all(&mut self, o: impl Into<Self>) { self.0 &= !o.into().0 }
    pub fn iter(&self) -> EnumSetIter<T> { EnumSetIter(*self) }
    pub fn as_u64(&self) -> u64 { self.0 }
}
pub struct EnumSetIter<T: EnumSetType>(EnumSet<T>);
impl<T: EnumSetType> Iterator for EnumSetIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { if self.0.0 == 0 { return None; } let i = self.0.0.trailing_zeros(); self.0.0 &= self.0.0 - 1; Some(T::from_idx(i)) }
}
impl<T: EnumSetType> IntoIterator for EnumSet<T> { type Item = T; type IntoIter = EnumSetIter<T>; fn into_iter(self) -> EnumSetIter<T> { self.iter() } }
impl<T: EnumSetType> FromIterator<T> for EnumSet<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { let mut s = Self::empty(); for t in i { s.insert(t); } s } }
impl<T: EnumSetType> Extend<T> for EnumSet<T> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.insert(t); } } }
impl<T: EnumSetType> From<T> for EnumSet<T> { fn from(t: T) -> Self { Self::only(t) } }
impl<T: EnumSetType + fmt::Debug> fmt::Debug for EnumSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("EnumSet(")?;
        for (i, t) in self.iter().enumerate() { if i > 0 { f.write_str(" | ")?; } t.fmt(f)?; }
        f.write_str(")")
    }
}
macro_rules! op { ($tr:ident $f:ident $tra:ident $fa:ident $m:ident) => {
    impl<T: EnumSetType, O: Into<EnumSet<T>>> $tr<O> for EnumSet<T> { type Output = Self; fn $f(self, o: O) -> Self { self.$m(o) } }
    impl<T: EnumSetType, O: Into<EnumSet<T>>> $tra<O> for EnumSet<T> { fn $fa(&mut self, o: O) { *self = self.$m(o) } }
} }
op!(BitOr bitor BitOrAssign bitor_assign union);
op!(BitAnd bitand BitAndAssign bitand_assign intersection);
op!(Sub sub SubAssign sub_assign difference);
op!(BitXor bitxor BitXorAssign bitxor_assign symmetrical_difference);
impl<T: EnumSetType> Not for EnumSet<T> { type Output = Self; fn not(self) -> Self { self.complement() } }
#[macro_export]
macro_rules! enum_set {
    () => { $crate::EnumSet::empty() };
    ($($v:path)|+ $(|)?) => { $crate::EnumSet::__from_bits(0 $(| $v.__impl_enumset_bit())+) };
}
