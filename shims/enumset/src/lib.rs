//! Stand-in for `enumset`: a 64-bit set over a field-less enum.
pub use enumset_derive::EnumSetType;
use std::fmt;
use std::marker::PhantomData;

pub trait EnumSetType: Copy + Eq + 'static {
    const ALL: &'static [Self];
    fn bit(self) -> u64;
}
pub struct EnumSet<T>(u64, PhantomData<T>);
impl<T> Clone for EnumSet<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for EnumSet<T> {}
impl<T> PartialEq for EnumSet<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for EnumSet<T> {}
impl<T> std::hash::Hash for EnumSet<T> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> EnumSet<T> {
    #[doc(hidden)]
    pub const fn __from_bits(b: u64) -> Self {
        EnumSet(b, PhantomData)
    }
    pub const fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub const fn len(&self) -> usize {
        self.0.count_ones() as usize
    }
}
impl<T: EnumSetType> EnumSet<T> {
    pub fn new() -> Self {
        EnumSet(0, PhantomData)
    }
    pub fn empty() -> Self {
        Self::new()
    }
    pub fn only(t: T) -> Self {
        EnumSet(t.bit(), PhantomData)
    }
    pub fn all() -> Self {
        T::ALL.iter().copied().collect()
    }
    pub fn contains(&self, t: T) -> bool {
        self.0 & t.bit() != 0
    }
    pub fn insert(&mut self, t: T) -> bool {
        let had = self.contains(t);
        self.0 |= t.bit();
        !had
    }
    pub fn remove(&mut self, t: T) -> bool {
        let had = self.contains(t);
        self.0 &= !t.bit();
        had
    }
    pub fn is_disjoint(&self, o: Self) -> bool {
        self.0 & o.0 == 0
    }
    pub fn is_subset(&self, o: Self) -> bool {
        self.0 & !o.0 == 0
    }
    pub fn is_superset(&self, o: Self) -> bool {
        o.is_subset(*self)
    }
    pub fn union(&self, o: Self) -> Self {
        EnumSet(self.0 | o.0, PhantomData)
    }
    pub fn intersection(&self, o: Self) -> Self {
        EnumSet(self.0 & o.0, PhantomData)
    }
    pub fn difference(&self, o: Self) -> Self {
        EnumSet(self.0 & !o.0, PhantomData)
    }
    pub fn iter(&self) -> impl Iterator<Item = T> {
        let b = self.0;
        T::ALL.iter().copied().filter(move |t| b & t.bit() != 0)
    }
}
impl<T: EnumSetType> FromIterator<T> for EnumSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        let mut s = Self::new();
        for t in i {
            s.insert(t);
        }
        s
    }
}
impl<T: EnumSetType> Default for EnumSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> std::ops::BitOr<O> for EnumSet<T> {
    type Output = EnumSet<T>;
    fn bitor(self, o: O) -> Self {
        self.union(o.into())
    }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> std::ops::BitAnd<O> for EnumSet<T> {
    type Output = EnumSet<T>;
    fn bitand(self, o: O) -> Self {
        self.intersection(o.into())
    }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> std::ops::Sub<O> for EnumSet<T> {
    type Output = EnumSet<T>;
    fn sub(self, o: O) -> Self {
        self.difference(o.into())
    }
}
impl<T: EnumSetType, O: Into<EnumSet<T>>> std::ops::BitOrAssign<O> for EnumSet<T> {
    fn bitor_assign(&mut self, o: O) {
        self.0 |= o.into().0
    }
}
impl<T: EnumSetType> From<T> for EnumSet<T> {
    fn from(t: T) -> Self {
        Self::only(t)
    }
}
impl<T: EnumSetType + fmt::Debug> fmt::Debug for EnumSet<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        f.write_str("EnumSet(")?;
        for t in self.iter() {
            if !first {
                f.write_str(" | ")?;
            }
            first = false;
            t.fmt(f)?;
        }
        f.write_str(")")
    }
}
#[macro_export]
macro_rules! enum_set {
    ($(|)*) => { $crate::EnumSet::__from_bits(0) };
    ($a:path $(|)*) => { $crate::EnumSet::__from_bits($a.__impl_bit()) };
    ($a:path | $($r:path)|* $(|)*) => { $crate::EnumSet::__from_bits($a.__impl_bit() $(| $r.__impl_bit())*) };
}
