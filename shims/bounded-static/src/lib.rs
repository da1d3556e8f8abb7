//! Offline stand-in for `bounded-static` 0.5 (the crate is not available in this sandbox).
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasher, Hash};

pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}
pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}
#[macro_export]
#[doc(hidden)]
macro_rules! __copy_impl { ($($t:ty),* $(,)?) => { $(
    impl $crate::ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { self.clone() } }
    impl $crate::IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
)* } }
__copy_impl!(bool, char, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, (), String,
    std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroUsize);

impl<'a, T> ToBoundedStatic for Cow<'a, T>
where
    T: 'static + ?Sized + ToOwned,
    T::Owned: 'static,
{
    type Static = Cow<'static, T>;
    fn to_static(&self) -> Cow<'static, T> {
        Cow::Owned(self.clone().into_owned())
    }
}
impl<'a, T> IntoBoundedStatic for Cow<'a, T>
where
    T: 'static + ?Sized + ToOwned,
    T::Owned: 'static,
{
    type Static = Cow<'static, T>;
    fn into_static(self) -> Cow<'static, T> {
        Cow::Owned(self.into_owned())
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn to_static(&self) -> Self::Static {
        self.as_ref().map(T::to_static)
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn into_static(self) -> Self::Static {
        self.map(T::into_static)
    }
}
impl<T: ToBoundedStatic, E: ToBoundedStatic> ToBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn to_static(&self) -> Self::Static {
        match self { Ok(t) => Ok(t.to_static()), Err(e) => Err(e.to_static()) }
    }
}
impl<T: IntoBoundedStatic, E: IntoBoundedStatic> IntoBoundedStatic for Result<T, E> {
    type Static = Result<T::Static, E::Static>;
    fn into_static(self) -> Self::Static {
        match self { Ok(t) => Ok(t.into_static()), Err(e) => Err(e.into_static()) }
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn to_static(&self) -> Self::Static {
        Box::new((**self).to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn into_static(self) -> Self::Static {
        Box::new((*self).into_static())
    }
}
macro_rules! seq { ($($c:ident),*) => { $(
    impl<T: ToBoundedStatic> ToBoundedStatic for $c<T> {
        type Static = $c<T::Static>;
        fn to_static(&self) -> Self::Static { self.iter().map(T::to_static).collect() }
    }
    impl<T: IntoBoundedStatic> IntoBoundedStatic for $c<T> {
        type Static = $c<T::Static>;
        fn into_static(self) -> Self::Static { self.into_iter().map(T::into_static).collect() }
    }
)* } }
seq!(Vec, VecDeque, LinkedList);
impl<T: ToBoundedStatic> ToBoundedStatic for BTreeSet<T> where T::Static: Ord {
    type Static = BTreeSet<T::Static>;
    fn to_static(&self) -> Self::Static { self.iter().map(T::to_static).collect() }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for BTreeSet<T> where T::Static: Ord {
    type Static = BTreeSet<T::Static>;
    fn into_static(self) -> Self::Static { self.into_iter().map(T::into_static).collect() }
}
impl<T: ToBoundedStatic, S: BuildHasher + Default + 'static> ToBoundedStatic for HashSet<T, S> where T::Static: Eq + Hash {
    type Static = HashSet<T::Static, S>;
    fn to_static(&self) -> Self::Static { self.iter().map(T::to_static).collect() }
}
impl<K: ToBoundedStatic, V: ToBoundedStatic> ToBoundedStatic for BTreeMap<K, V> where K::Static: Ord {
    type Static = BTreeMap<K::Static, V::Static>;
    fn to_static(&self) -> Self::Static { self.iter().map(|(k, v)| (k.to_static(), v.to_static())).collect() }
}
impl<K: ToBoundedStatic, V: ToBoundedStatic> ToBoundedStatic for HashMap<K, V> where K::Static: Eq + Hash {
    type Static = HashMap<K::Static, V::Static>;
    fn to_static(&self) -> Self::Static { self.iter().map(|(k, v)| (k.to_static(), v.to_static())).collect() }
}
impl<A: ToBoundedStatic, B: ToBoundedStatic> ToBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn to_static(&self) -> Self::Static { (self.0.to_static(), self.1.to_static()) }
}
impl<A: IntoBoundedStatic, B: IntoBoundedStatic> IntoBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn into_static(self) -> Self::Static { (self.0.into_static(), self.1.into_static()) }
}
