//! The buffers of the library.
use crate::flt::Flt;
use crate::store::*;
use basic_dsp_vector::*;

/// One of the buffers of the library, which tracks what is asked of it.
pub struct Buf<T: Flt> {
    b: AnyBuf<T>,
    /// Largest number of elements which was borrowed
    pub most: usize,
}
enum AnyBuf<T: Flt> {
    Single(SingleBuffer<T>),
    No(NoBuffer),
    FixedV(FixedLenBuffer<Vec<T>, T>),
}
impl<T: Flt> Buf<T> {
    pub fn new(k: BufKind, junk: Junk) -> Buf<T> {
        let b = match k {
            BufKind::Single(n) => {
                let mut b = SingleBuffer::new();
                if n > 0 {
                    // Leave something behind
                    let mut x = Buffer::<'_, Vec<T>, T>::borrow(&mut b, n);
                    for (i, v) in x.to_slice_mut().iter_mut().enumerate() {
                        *v = junk.v(i);
                    }
                }
                AnyBuf::Single(b)
            }
            BufKind::No => AnyBuf::No(NoBuffer),
            BufKind::Fixed(n) => AnyBuf::FixedV(FixedLenBuffer::new((0..n).map(|i| junk.v(i)).collect())),
        };
        Buf { b, most: 0 }
    }
}
pub enum Bor<'a, T: Flt> {
    Single(<SingleBuffer<T> as Buffer<'a, Vec<T>, T>>::Borrow),
    No(<NoBuffer as Buffer<'a, Vec<T>, T>>::Borrow),
    FixedV(<FixedLenBuffer<Vec<T>, T> as Buffer<'a, Vec<T>, T>>::Borrow),
}
impl<'a, T: Flt> ToSlice<T> for Bor<'a, T> {
    fn to_slice(&self) -> &[T] {
        match self {
            Bor::Single(b) => b.to_slice(),
            Bor::No(b) => b.to_slice(),
            Bor::FixedV(b) => b.to_slice(),
        }
    }
    fn len(&self) -> usize {
        match self {
            Bor::Single(b) => b.len(),
            Bor::No(b) => b.len(),
            Bor::FixedV(b) => b.len(),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            Bor::Single(b) => b.is_empty(),
            Bor::No(b) => b.is_empty(),
            Bor::FixedV(b) => b.is_empty(),
        }
    }
    fn alloc_len(&self) -> usize {
        match self {
            Bor::Single(b) => b.alloc_len(),
            Bor::No(b) => b.alloc_len(),
            Bor::FixedV(b) => b.alloc_len(),
        }
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        match self {
            Bor::Single(b) => b.try_resize(len),
            Bor::No(b) => b.try_resize(len),
            Bor::FixedV(b) => b.try_resize(len),
        }
    }
}
impl<'a, T: Flt> ToSliceMut<T> for Bor<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        match self {
            Bor::Single(b) => b.to_slice_mut(),
            Bor::No(b) => b.to_slice_mut(),
            Bor::FixedV(b) => b.to_slice_mut(),
        }
    }
}
impl<'a, T: Flt> BufferBorrow<St<T>, T> for Bor<'a, T> {
    fn trade(self, storage: &mut St<T>) {
        match (self, storage) {
            (Bor::Single(b), St::V(v)) => b.trade(v),
            (Bor::No(b), St::V(v)) => b.trade(v),
            (Bor::FixedV(b), st) => b.trade(st),
            _ => panic!("harness: buffer doesn't fit to the storage"),
        }
    }
}
impl<'a, T: Flt> Buffer<'a, St<T>, T> for Buf<T> {
    type Borrow = Bor<'a, T>;
    fn borrow(&'a mut self, len: usize) -> Bor<'a, T> {
        self.most = self.most.max(len);
        match &mut self.b {
            AnyBuf::Single(b) => Bor::Single(Buffer::<'a, Vec<T>, T>::borrow(b, len)),
            AnyBuf::No(b) => Bor::No(Buffer::<'a, Vec<T>, T>::borrow(b, len)),
            AnyBuf::FixedV(b) => Bor::FixedV(Buffer::<'a, Vec<T>, T>::borrow(b, len)),
        }
    }
    fn alloc_len(&self) -> usize {
        match &self.b {
            AnyBuf::Single(b) => Buffer::<'_, Vec<T>, T>::alloc_len(b),
            AnyBuf::No(b) => Buffer::<'_, Vec<T>, T>::alloc_len(b),
            AnyBuf::FixedV(b) => Buffer::<'_, Vec<T>, T>::alloc_len(b),
        }
    }
}
