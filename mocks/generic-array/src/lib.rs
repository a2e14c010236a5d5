//! Verification model of `generic-array` 0.14 (used only under Kani, through `[patch.crates-io]`).
//!
//! The public contract is that of generic-array 0.14 (fixed-length array indexed by a typenum
//! length); only the representation differs: a flat `[T; n]` instead of a tree of nested structs,
//! because the nested representation costs the bit-precise back end two orders of magnitude.
#![no_std]
#![allow(clippy::all)]

#[cfg(not(all(kani, feature = "short-lattice")))]
pub extern crate typenum;
/// `U34` stands for 1: a Kyber public key (`32 * 34` bytes) is represented by 32 bytes.  Code that
/// treats the line as an opaque value of the associated length behaves the same.
#[cfg(all(kani, feature = "short-lattice"))]
pub mod typenum {
    pub use ::typenum::*;
    pub type U34 = ::typenum::U1;
}

use core::borrow::{Borrow, BorrowMut};
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::FromIterator;
use core::mem::{size_of, needs_drop, MaybeUninit};
use core::ops::{Deref, DerefMut};
use ::typenum::{UInt, UTerm, Unsigned, B0, B1};

pub trait ArrayLength<T>: Unsigned {
    type ArrayType;
    fn slice(a: &Self::ArrayType) -> &[T];
    fn slice_mut(a: &mut Self::ArrayType) -> &mut [T];
    fn from_fn_<F: FnMut(usize) -> T>(f: F) -> Self::ArrayType;
    fn clone_(a: &Self::ArrayType) -> Self::ArrayType
    where
        T: Clone;
    fn default_() -> Self::ArrayType
    where
        T: Default;
}

#[inline(always)]
fn default_is_zero<T: Default>() -> bool {
    if needs_drop::<T>() {
        return false;
    }
    let t = T::default();
    match size_of::<T>() {
        0 => true,
        1 => unsafe { *(&t as *const T as *const u8) == 0 },
        2 if core::mem::align_of::<T>() == 2 => unsafe { *(&t as *const T as *const u16) == 0 },
        _ => false,
    }
}

macro_rules! impl_len {
    ($n:expr, $t:ty) => {
        impl<T> ArrayLength<T> for $t {
            type ArrayType = [T; $n];
            #[inline(always)]
            fn slice(a: &[T; $n]) -> &[T] {
                a
            }
            #[inline(always)]
            fn slice_mut(a: &mut [T; $n]) -> &mut [T] {
                a
            }
            #[inline]
            fn from_fn_<F: FnMut(usize) -> T>(mut f: F) -> [T; $n] {
                let mut m: MaybeUninit<[T; $n]> = MaybeUninit::uninit();
                let p = m.as_mut_ptr() as *mut T;
                let mut i = 0;
                while i < $n {
                    unsafe { p.add(i).write(f(i)) };
                    i += 1;
                }
                unsafe { m.assume_init() }
            }
            #[inline(always)]
            fn clone_(a: &[T; $n]) -> [T; $n]
            where
                T: Clone,
            {
                if !needs_drop::<T>() && size_of::<T>() <= 2 {
                    // all element types of this size in the workspace are plain integers
                    // (u8, u16 and the newtype Coefficient), whose `Clone` copies the value
                    unsafe { core::ptr::read(a) }
                } else {
                    a.clone()
                }
            }
            #[inline(always)]
            fn default_() -> [T; $n]
            where
                T: Default,
            {
                if $n == 0 {
                    unsafe { MaybeUninit::<[T; $n]>::uninit().assume_init() }
                } else if default_is_zero::<T>() {
                    unsafe { MaybeUninit::<[T; $n]>::zeroed().assume_init() }
                } else {
                    <Self as ArrayLength<T>>::from_fn_(|_| T::default())
                }
            }
        }
        impl<T> From<[T; $n]> for GenericArray<T, $t> {
            fn from(a: [T; $n]) -> Self {
                GenericArray { data: a }
            }
        }
        impl<T> From<GenericArray<T, $t>> for [T; $n] {
            fn from(a: GenericArray<T, $t>) -> Self {
                a.data
            }
        }
        impl<'a, T> From<&'a [T; $n]> for &'a GenericArray<T, $t> {
            fn from(a: &'a [T; $n]) -> Self {
                unsafe { &*(a as *const [T; $n] as *const GenericArray<T, $t>) }
            }
        }
    };
}
/// as in the original, only up to 32
macro_rules! impl_ref {
    ($n:expr, $t:ty) => {
        impl<T> AsRef<[T; $n]> for GenericArray<T, $t> {
            fn as_ref(&self) -> &[T; $n] {
                &self.data
            }
        }
        impl<T> AsMut<[T; $n]> for GenericArray<T, $t> {
            fn as_mut(&mut self) -> &mut [T; $n] {
                &mut self.data
            }
        }
    };
}

include!("lengths.rs");

#[repr(transparent)]
pub struct GenericArray<T, N: ArrayLength<T>> {
    data: N::ArrayType,
}

impl<T, N: ArrayLength<T>> Deref for GenericArray<T, N> {
    type Target = [T];
    #[inline(always)]
    fn deref(&self) -> &[T] {
        N::slice(&self.data)
    }
}
impl<T, N: ArrayLength<T>> DerefMut for GenericArray<T, N> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut [T] {
        N::slice_mut(&mut self.data)
    }
}
impl<T, N: ArrayLength<T>> AsRef<[T]> for GenericArray<T, N> {
    #[inline(always)]
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T, N: ArrayLength<T>> AsMut<[T]> for GenericArray<T, N> {
    #[inline(always)]
    fn as_mut(&mut self) -> &mut [T] {
        self
    }
}
impl<T, N: ArrayLength<T>> Borrow<[T]> for GenericArray<T, N> {
    fn borrow(&self) -> &[T] {
        self
    }
}
impl<T, N: ArrayLength<T>> BorrowMut<[T]> for GenericArray<T, N> {
    fn borrow_mut(&mut self) -> &mut [T] {
        self
    }
}
impl<T: Clone, N: ArrayLength<T>> Clone for GenericArray<T, N> {
    #[inline(always)]
    fn clone(&self) -> Self {
        GenericArray { data: N::clone_(&self.data) }
    }
}
impl<T: Copy, N: ArrayLength<T>> Copy for GenericArray<T, N> where N::ArrayType: Copy {}
impl<T: Default, N: ArrayLength<T>> Default for GenericArray<T, N> {
    #[inline(always)]
    fn default() -> Self {
        GenericArray { data: N::default_() }
    }
}
impl<T: PartialEq, N: ArrayLength<T>> PartialEq for GenericArray<T, N> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq, N: ArrayLength<T>> Eq for GenericArray<T, N> {}
impl<T: PartialOrd, N: ArrayLength<T>> PartialOrd for GenericArray<T, N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        PartialOrd::partial_cmp(&**self, &**o)
    }
}
impl<T: Ord, N: ArrayLength<T>> Ord for GenericArray<T, N> {
    fn cmp(&self, o: &Self) -> Ordering {
        Ord::cmp(&**self, &**o)
    }
}
impl<T: fmt::Debug, N: ArrayLength<T>> fmt::Debug for GenericArray<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self[..].fmt(f)
    }
}
impl<T: Hash, N: ArrayLength<T>> Hash for GenericArray<T, N> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Hash::hash(&self[..], h)
    }
}
impl<N: ArrayLength<u8>> fmt::LowerHex for GenericArray<u8, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in self.iter() {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
    }
}

impl<T, N: ArrayLength<T>> GenericArray<T, N> {
    #[inline(always)]
    pub fn as_slice(&self) -> &[T] {
        self
    }
    #[inline(always)]
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        self
    }
    #[inline(always)]
    pub fn from_slice(s: &[T]) -> &Self {
        assert_eq!(s.len(), N::USIZE);
        unsafe { &*(s.as_ptr() as *const Self) }
    }
    #[inline(always)]
    pub fn from_mut_slice(s: &mut [T]) -> &mut Self {
        assert_eq!(s.len(), N::USIZE);
        unsafe { &mut *(s.as_mut_ptr() as *mut Self) }
    }
    pub fn clone_from_slice(s: &[T]) -> Self
    where
        T: Clone,
    {
        assert_eq!(s.len(), N::USIZE, "Slice must be the same length as the array");
        Self::from_slice(s).clone()
    }
    pub fn from_exact_iter<I: IntoIterator<Item = T>>(iter: I) -> Option<Self> {
        let mut it = iter.into_iter();
        let mut m: MaybeUninit<Self> = MaybeUninit::uninit();
        let p = m.as_mut_ptr() as *mut T;
        let mut i = 0;
        while i < N::USIZE {
            match it.next() {
                Some(x) => unsafe { p.add(i).write(x) },
                None => return None,
            }
            i += 1;
        }
        if it.next().is_some() {
            return None;
        }
        Some(unsafe { m.assume_init() })
    }
}

impl<'a, T, N: ArrayLength<T>> From<&'a [T]> for &'a GenericArray<T, N> {
    #[inline(always)]
    fn from(s: &'a [T]) -> Self {
        GenericArray::from_slice(s)
    }
}
impl<'a, T, N: ArrayLength<T>> From<&'a mut [T]> for &'a mut GenericArray<T, N> {
    #[inline(always)]
    fn from(s: &'a mut [T]) -> Self {
        GenericArray::from_mut_slice(s)
    }
}
impl<T, N: ArrayLength<T>> FromIterator<T> for GenericArray<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut it = iter.into_iter();
        GenericArray { data: N::from_fn_(|_| it.next().expect("GenericArray::from_iter: not enough elements")) }
    }
}
impl<'a, T, N: ArrayLength<T>> IntoIterator for &'a GenericArray<T, N> {
    type Item = &'a T;
    type IntoIter = core::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, T, N: ArrayLength<T>> IntoIterator for &'a mut GenericArray<T, N> {
    type Item = &'a mut T;
    type IntoIter = core::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}

pub mod iter {
    use super::*;
    pub struct GenericArrayIter<T, N: ArrayLength<T>> {
        a: core::mem::ManuallyDrop<GenericArray<T, N>>,
        i: usize,
        j: usize,
    }
    impl<T, N: ArrayLength<T>> IntoIterator for GenericArray<T, N> {
        type Item = T;
        type IntoIter = GenericArrayIter<T, N>;
        fn into_iter(self) -> Self::IntoIter {
            GenericArrayIter { a: core::mem::ManuallyDrop::new(self), i: 0, j: N::USIZE }
        }
    }
    impl<T, N: ArrayLength<T>> Iterator for GenericArrayIter<T, N> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.i < self.j {
                let r = unsafe { core::ptr::read(&self.a[self.i]) };
                self.i += 1;
                Some(r)
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (self.j - self.i, Some(self.j - self.i))
        }
    }
    impl<T, N: ArrayLength<T>> DoubleEndedIterator for GenericArrayIter<T, N> {
        fn next_back(&mut self) -> Option<T> {
            if self.i < self.j {
                self.j -= 1;
                Some(unsafe { core::ptr::read(&self.a[self.j]) })
            } else {
                None
            }
        }
    }
    impl<T, N: ArrayLength<T>> ExactSizeIterator for GenericArrayIter<T, N> {}
    impl<T, N: ArrayLength<T>> Drop for GenericArrayIter<T, N> {
        fn drop(&mut self) {
            if needs_drop::<T>() {
                while let Some(x) = self.next() {
                    drop(x);
                }
            }
        }
    }
}

pub mod sequence {
    use super::*;
    use core::ops::{Add, Sub};
    use ::typenum::{Add1, Sub1, Diff, Sum, U1};

    pub unsafe trait GenericSequence<T>: Sized + IntoIterator {
        type Length: ArrayLength<T>;
        type Sequence: GenericSequence<T, Length = Self::Length>;
        fn generate<F>(f: F) -> Self::Sequence
        where
            F: FnMut(usize) -> T;
    }
    unsafe impl<T, N: ArrayLength<T>> GenericSequence<T> for GenericArray<T, N> {
        type Length = N;
        type Sequence = GenericArray<T, N>;
        #[inline(always)]
        fn generate<F>(f: F) -> GenericArray<T, N>
        where
            F: FnMut(usize) -> T,
        {
            GenericArray { data: N::from_fn_(f) }
        }
    }

    pub unsafe trait Lengthen<T>: Sized {
        type Longer;
        fn append(self, last: T) -> Self::Longer;
        fn prepend(self, first: T) -> Self::Longer;
    }
    unsafe impl<T, N: ArrayLength<T>> Lengthen<T> for GenericArray<T, N>
    where
        N: Add<B1>,
        Add1<N>: ArrayLength<T>,
    {
        type Longer = GenericArray<T, Add1<N>>;
        fn append(self, last: T) -> Self::Longer {
            self.into_iter().chain(core::iter::once(last)).collect()
        }
        fn prepend(self, first: T) -> Self::Longer {
            core::iter::once(first).chain(self.into_iter()).collect()
        }
    }
    pub unsafe trait Shorten<T>: Sized {
        type Shorter;
        fn pop_back(self) -> (Self::Shorter, T);
        fn pop_front(self) -> (T, Self::Shorter);
    }
    unsafe impl<T, N: ArrayLength<T>> Shorten<T> for GenericArray<T, N>
    where
        N: Sub<B1>,
        Sub1<N>: ArrayLength<T>,
    {
        type Shorter = GenericArray<T, Sub1<N>>;
        fn pop_back(self) -> (Self::Shorter, T) {
            let mut it = self.into_iter();
            let init = GenericArray { data: <Sub1<N> as ArrayLength<T>>::from_fn_(|_| it.next().unwrap()) };
            (init, it.next().unwrap())
        }
        fn pop_front(self) -> (T, Self::Shorter) {
            let mut it = self.into_iter();
            let h = it.next().unwrap();
            (h, it.collect())
        }
    }
    pub unsafe trait Split<T, K: ArrayLength<T>>: Sized {
        type First;
        type Second;
        fn split(self) -> (Self::First, Self::Second);
    }
    unsafe impl<T, N: ArrayLength<T>, K: ArrayLength<T>> Split<T, K> for GenericArray<T, N>
    where
        N: Sub<K>,
        Diff<N, K>: ArrayLength<T>,
    {
        type First = GenericArray<T, K>;
        type Second = GenericArray<T, Diff<N, K>>;
        fn split(self) -> (Self::First, Self::Second) {
            let mut it = self.into_iter();
            let a = GenericArray { data: K::from_fn_(|_| it.next().unwrap()) };
            (a, it.collect())
        }
    }
    pub unsafe trait Concat<T, M: ArrayLength<T>>: Sized {
        type Rest;
        type Output;
        fn concat(self, rest: Self::Rest) -> Self::Output;
    }
    unsafe impl<T, N: ArrayLength<T>, M: ArrayLength<T>> Concat<T, M> for GenericArray<T, N>
    where
        N: Add<M>,
        Sum<N, M>: ArrayLength<T>,
    {
        type Rest = GenericArray<T, M>;
        type Output = GenericArray<T, Sum<N, M>>;
        fn concat(self, rest: Self::Rest) -> Self::Output {
            self.into_iter().chain(rest.into_iter()).collect()
        }
    }
    #[allow(unused)]
    type _U = U1;
}

pub mod functional {
    use super::*;
    pub trait FunctionalSequence<T>: Sized {
        type Len: ArrayLength<T>;
        fn map<U, F: FnMut(T) -> U>(self, f: F) -> GenericArray<U, Self::Len>
        where
            Self::Len: ArrayLength<U>;
        fn fold<U, F: FnMut(U, T) -> U>(self, init: U, f: F) -> U;
    }
    impl<T, N: ArrayLength<T>> FunctionalSequence<T> for GenericArray<T, N> {
        type Len = N;
        fn map<U, F: FnMut(T) -> U>(self, f: F) -> GenericArray<U, N>
        where
            N: ArrayLength<U>,
        {
            self.into_iter().map(f).collect()
        }
        fn fold<U, F: FnMut(U, T) -> U>(self, init: U, f: F) -> U {
            self.into_iter().fold(init, f)
        }
    }
}

pub mod arr {
    use super::*;
    use core::ops::Add;
    pub trait AddLength<T, N: ArrayLength<T>>: ArrayLength<T> {
        type Output: ArrayLength<T>;
    }
    impl<T, N1, N2> AddLength<T, N2> for N1
    where
        N1: ArrayLength<T> + Add<N2>,
        N2: ArrayLength<T>,
        typenum::Sum<N1, N2>: ArrayLength<T>,
    {
        type Output = typenum::Sum<N1, N2>;
    }
}

#[cfg(feature = "serde")]
mod impl_serde {
    use super::*;
    use core::marker::PhantomData;
    use serde::de::{self, SeqAccess, Visitor};
    use serde::{ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};

    impl<T: Serialize, N: ArrayLength<T>> Serialize for GenericArray<T, N> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut tup = s.serialize_tuple(N::USIZE)?;
            for el in self.iter() {
                tup.serialize_element(el)?;
            }
            tup.end()
        }
    }
    struct V<T, N>(PhantomData<(T, N)>);
    impl<'de, T: Default + Deserialize<'de>, N: ArrayLength<T>> Visitor<'de> for V<T, N> {
        type Value = GenericArray<T, N>;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("struct GenericArray")
        }
        fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<GenericArray<T, N>, A::Error> {
            let mut result = GenericArray::default();
            for i in 0..N::USIZE {
                result[i] = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(i, &self))?;
            }
            Ok(result)
        }
    }
    impl<'de, T: Default + Deserialize<'de>, N: ArrayLength<T>> Deserialize<'de> for GenericArray<T, N> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            d.deserialize_tuple(N::USIZE, V(PhantomData))
        }
    }
}

#[cfg(feature = "zeroize")]
impl<T: zeroize::Zeroize, N: ArrayLength<T>> zeroize::Zeroize for GenericArray<T, N> {
    fn zeroize(&mut self) {
        self.as_mut_slice().iter_mut().zeroize()
    }
}
