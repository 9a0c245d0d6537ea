//! Storages and buffers with a controlled position, spare capacity and contents.
use crate::flt::Flt;
use basic_dsp_vector::*;
use arrayvec::ArrayVec;

#[cfg(feature = "std")]
pub use crate::bufs::*;
#[cfg(not(feature = "std"))]
pub use crate::bufs_nostd::*;
#[cfg(not(feature = "std"))]
use crate::bufs_nostd::{HeapMut, HeapResize, HeapSlice};
#[cfg(feature = "std")]
use basic_dsp_vector::{Resize as HeapResize, ToSlice as HeapSlice, ToSliceMut as HeapMut};

pub const ARR: usize = 96;
/// Canary elements in front of and behind a slice storage
pub const GUARD: usize = 24;

/// A slice inside of a memory area owned by somebody else (an `Arena`).
pub struct Raw<T> {
    p: *mut T,
    len: usize,
}
unsafe impl<T: Send> Send for Raw<T> {}
unsafe impl<T: Sync> Sync for Raw<T> {}
impl<T> Raw<T> {
    pub fn s(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.p, self.len) }
    }
    pub fn m(&mut self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.len) }
    }
}

/// All storage types of the library behind one type; every method delegates to the library's
/// implementation for the storage in question.
pub enum St<T> {
    S(Raw<T>),
    V(Vec<T>),
    B(Box<[T]>),
    A(Box<ArrayVec<T, ARR>>),
}

impl<T: Flt> Clone for St<T> {
    fn clone(&self) -> St<T> {
        match self {
            St::S(r) => St::V(r.s().to_vec()),
            St::V(v) => St::V(v.clone()),
            St::B(b) => St::B(b.clone()),
            St::A(a) => St::A(a.clone()),
        }
    }
}
impl<T: Flt> ToSlice<T> for St<T> {
    fn to_slice(&self) -> &[T] {
        match self {
            St::S(r) => r.s(),
            St::V(v) => HeapSlice::to_slice(v),
            St::B(b) => HeapSlice::to_slice(b),
            St::A(a) => ToSlice::to_slice(&**a),
        }
    }
    fn len(&self) -> usize {
        match self {
            St::S(r) => ToSlice::len(&r.s()),
            St::V(v) => HeapSlice::len(v),
            St::B(b) => HeapSlice::len(b),
            St::A(a) => ToSlice::len(&**a),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            St::S(r) => ToSlice::is_empty(&r.s()),
            St::V(v) => HeapSlice::is_empty(v),
            St::B(b) => HeapSlice::is_empty(b),
            St::A(a) => ToSlice::is_empty(&**a),
        }
    }
    fn alloc_len(&self) -> usize {
        match self {
            St::S(r) => ToSlice::alloc_len(&r.s()),
            St::V(v) => HeapSlice::alloc_len(v),
            St::B(b) => HeapSlice::alloc_len(b),
            St::A(a) => ToSlice::alloc_len(&**a),
        }
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        match self {
            St::S(r) => ToSlice::try_resize(&mut r.m(), len),
            St::V(v) => HeapSlice::try_resize(v, len),
            St::B(b) => HeapSlice::try_resize(b, len),
            St::A(a) => ToSlice::try_resize(&mut **a, len),
        }
    }
}
impl<T: Flt> ToSliceMut<T> for St<T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        match self {
            St::S(r) => r.m(),
            St::V(v) => HeapMut::to_slice_mut(v),
            St::B(b) => HeapMut::to_slice_mut(b),
            St::A(a) => ToSliceMut::to_slice_mut(&mut **a),
        }
    }
}
impl<T: Flt> Resize for St<T> {
    fn resize(&mut self, len: usize) {
        match self {
            St::V(v) => HeapResize::resize(v, len),
            _ => panic!("harness: storage isn't resizable"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// Slice at the given element offset from a 64 byte boundary
    Slice(usize),
    Vec,
    Box,
    Arr,
}
impl Kind {
    pub fn grows(self) -> bool {
        self == Kind::Vec
    }
}

/// Memory with canaries around the part given to the library.
pub struct Arena<T> {
    mem: Vec<T>,
    start: usize,
    len: usize,
}
impl<T: Flt> Arena<T> {
    pub fn new(offset: usize, len: usize) -> Arena<T> {
        let per = 64 / std::mem::size_of::<T>();
        let mem: Vec<T> = vec![T::of(CANARY); len + 2 * GUARD + 2 * per + offset];
        let p = mem.as_ptr() as usize / std::mem::size_of::<T>();
        let mut start = GUARD;
        while (p + start) % per != offset % per {
            start += 1;
        }
        Arena { mem, start, len }
    }
    pub fn raw(&mut self) -> Raw<T> {
        Raw { p: unsafe { self.mem.as_mut_ptr().add(self.start) }, len: self.len }
    }
    pub fn intact(&self) -> bool {
        let c = T::of(CANARY);
        let p = self.mem.as_ptr();
        (0..self.start).chain(self.start + self.len..self.mem.len()).all(|i| unsafe { p.add(i).read_volatile() } == c)
    }
}
pub const CANARY: f64 = 987654.0;

/// What is left over in memory which isn't part of the valid data
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Junk {
    Nan,
    Big,
    Mid,
    Zero,
}
impl Junk {
    pub fn v<T: Flt>(self, i: usize) -> T {
        T::of(match self {
            Junk::Nan => f64::NAN,
            Junk::Big => -50000.0 - i as f64,
            Junk::Mid => -7.5 - (i % 8) as f64,
            Junk::Zero => 0.0,
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BufKind {
    /// `SingleBuffer` (vectors only), with so many elements of left over contents
    Single(usize),
    /// `NoBuffer`
    No,
    /// `FixedLenBuffer` with so many elements
    Fixed(usize),
}

// The library asks for these conversions in some trait bounds (`InterpolationOps`); they go
// through the library's generic conversions.
impl<T: Flt> ToDspVector<T> for St<T> {
    fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
        GenDspVec::rededicate_with_runtime_data(RealTimeVec::from(self), is_complex, domain)
    }
    fn to_dsp_vec<N, D>(self, _: &TypeMetaData<T, N, D>) -> DspVec<Self, T, N, D>
    where
        N: NumberSpace,
        D: Domain,
    {
        unimplemented!("harness")
    }
}
impl<T: Flt> ToComplexVector<St<T>, T> for St<T> {
    fn to_complex_time_vec(self) -> ComplexTimeVec<St<T>, T> {
        ComplexTimeVec::from(self)
    }
    fn to_complex_freq_vec(self) -> ComplexFreqVec<St<T>, T> {
        ComplexFreqVec::from(self)
    }
}
