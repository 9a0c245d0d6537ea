//! Without the standard library feature the library only knows slices and `ArrayVec`: storages on the
//! heap and growing buffers are then implemented here, like a user of the library would do it.
use crate::flt::Flt;
use crate::store::*;
use basic_dsp_vector::*;

pub trait HeapSlice<T> {
    fn to_slice(&self) -> &[T];
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn alloc_len(&self) -> usize;
    fn try_resize(&mut self, len: usize) -> VoidResult;
}
pub trait HeapMut<T> {
    fn to_slice_mut(&mut self) -> &mut [T];
}
pub trait HeapResize {
    fn resize(&mut self, len: usize);
}
impl<T: Flt> HeapSlice<T> for Vec<T> {
    fn to_slice(&self) -> &[T] {
        self
    }
    fn len(&self) -> usize {
        Vec::len(self)
    }
    fn alloc_len(&self) -> usize {
        self.capacity()
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        Vec::resize(self, len, T::of(0.0));
        Ok(())
    }
}
impl<T: Flt> HeapMut<T> for Vec<T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        self
    }
}
impl<T: Flt> HeapResize for Vec<T> {
    fn resize(&mut self, len: usize) {
        Vec::resize(self, len, T::of(0.0));
    }
}
impl<T: Flt> HeapSlice<T> for Box<[T]> {
    fn to_slice(&self) -> &[T] {
        self
    }
    fn len(&self) -> usize {
        (**self).len()
    }
    fn alloc_len(&self) -> usize {
        (**self).len()
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        if len > (**self).len() {
            Err(ErrorReason::TypeCanNotResize)
        } else {
            Ok(())
        }
    }
}
impl<T: Flt> HeapMut<T> for Box<[T]> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        self
    }
}

/// Keeps the memory of the last use, or allocates for every use, or is the library's buffer.
pub struct Buf<T: Flt> {
    b: AnyBuf<T>,
    /// Largest number of elements which was borrowed
    pub most: usize,
}
enum AnyBuf<T: Flt> {
    Single(Vec<T>),
    No,
    Fixed(FixedLenBuffer<St<T>, T>),
}
impl<T: Flt> Buf<T> {
    pub fn new(k: BufKind, junk: Junk) -> Buf<T> {
        let b = match k {
            BufKind::Single(n) => AnyBuf::Single((0..n).map(|i| junk.v(i)).collect()),
            BufKind::No => AnyBuf::No,
            BufKind::Fixed(n) => AnyBuf::Fixed(FixedLenBuffer::new(St::V((0..n).map(|i| junk.v(i)).collect()))),
        };
        Buf { b, most: 0 }
    }
}
pub enum Bor<'a, T: Flt> {
    Single(&'a mut Vec<T>),
    No(Vec<T>),
    Fixed(<FixedLenBuffer<St<T>, T> as Buffer<'a, St<T>, T>>::Borrow),
}
impl<'a, T: Flt> ToSlice<T> for Bor<'a, T> {
    fn to_slice(&self) -> &[T] {
        match self {
            Bor::Single(b) => b,
            Bor::No(b) => b,
            Bor::Fixed(b) => b.to_slice(),
        }
    }
    fn len(&self) -> usize {
        ToSlice::to_slice(self).len()
    }
    fn is_empty(&self) -> bool {
        ToSlice::to_slice(self).is_empty()
    }
    fn alloc_len(&self) -> usize {
        ToSlice::to_slice(self).len()
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        match self {
            Bor::Single(b) => HeapSlice::try_resize(*b, len),
            Bor::No(b) => HeapSlice::try_resize(b, len),
            Bor::Fixed(b) => ToSlice::try_resize(b, len),
        }
    }
}
impl<'a, T: Flt> ToSliceMut<T> for Bor<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        match self {
            Bor::Single(b) => b,
            Bor::No(b) => b,
            Bor::Fixed(b) => b.to_slice_mut(),
        }
    }
}
impl<'a, T: Flt> BufferBorrow<St<T>, T> for Bor<'a, T> {
    fn trade(self, storage: &mut St<T>) {
        match (self, storage) {
            (Bor::Single(b), St::V(v)) => std::mem::swap(b, v),
            (Bor::No(mut b), St::V(v)) => std::mem::swap(&mut b, v),
            (Bor::Fixed(b), st) => b.trade(st),
            _ => panic!("harness: buffer doesn't fit to the storage"),
        }
    }
}
impl<'a, T: Flt> Buffer<'a, St<T>, T> for Buf<T> {
    type Borrow = Bor<'a, T>;
    fn borrow(&'a mut self, len: usize) -> Bor<'a, T> {
        self.most = self.most.max(len);
        match &mut self.b {
            AnyBuf::Single(b) => {
                Vec::resize(b, len, T::of(0.0));
                Bor::Single(b)
            }
            AnyBuf::No => Bor::No(vec![T::of(0.0); len]),
            AnyBuf::Fixed(b) => Bor::Fixed(b.borrow(len)),
        }
    }
    fn alloc_len(&self) -> usize {
        match &self.b {
            AnyBuf::Single(b) => b.capacity(),
            AnyBuf::No => 0,
            AnyBuf::Fixed(b) => b.alloc_len(),
        }
    }
}
