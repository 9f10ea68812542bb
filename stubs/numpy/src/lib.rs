//! Verification stand-in for `numpy`: arrays are vectors; elementwise maps visit the elements in order.
use pyo3::Python;
use std::marker::PhantomData;
pub mod ndarray {
    #[derive(Clone)]
    pub struct Array<T>(pub Vec<T>);
    impl<T: Clone> Array<T> {
        pub fn mapv<B, F: FnMut(T) -> B>(&self, mut f: F) -> Array<B> { let mut v = Vec::with_capacity(self.0.len()); for x in self.0.iter() { v.push(f(x.clone())); } Array(v) }
        pub fn map<B, F: FnMut(&T) -> B>(&self, mut f: F) -> Array<B> { let mut v = Vec::with_capacity(self.0.len()); for x in self.0.iter() { v.push(f(x)); } Array(v) }
        pub fn iter(&self) -> std::slice::Iter<'_, T> { self.0.iter() }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.is_empty() }
        pub fn to_owned(&self) -> Array<T> { Array(self.0.clone()) }
        pub fn to_vec(&self) -> Vec<T> { self.0.clone() }
        pub fn view(&self) -> &Array<T> { self }
    }
    impl<T> std::ops::Index<usize> for Array<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.0[i] } }
    impl<T> FromIterator<T> for Array<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { Array(i.into_iter().collect()) } }
}
pub use ndarray::Array;
pub struct Ix1; pub struct IxDyn;
pub struct PyArray<T, D>(pub Vec<T>, PhantomData<D>);
pub type PyArrayDyn<T> = PyArray<T, IxDyn>;
pub type PyArray1<T> = PyArray<T, Ix1>;
fn leak<'py, T, D>(v: Vec<T>) -> &'py PyArray<T, D> { unsafe { &*Box::into_raw(Box::new(PyArray(v, PhantomData))) } }
impl<T> PyArray<T, Ix1> {
    pub fn from_vec<'py>(_: Python<'py>, v: Vec<T>) -> &'py PyArray<T, Ix1> { leak(v) }
    pub fn from_iter<'py, I: IntoIterator<Item = T>>(_: Python<'py>, i: I) -> &'py PyArray<T, Ix1> { leak(i.into_iter().collect()) }
    pub fn from_slice<'py>(_: Python<'py>, s: &[T]) -> &'py PyArray<T, Ix1> where T: Clone { leak(s.to_vec()) }
}
impl<T: Clone, D> PyArray<T, D> { pub fn to_dyn(&self) -> &PyArrayDyn<T> { leak(self.0.clone()) } }
pub struct PyReadonlyArrayDyn<'py, T>(pub Array<T>, PhantomData<&'py ()>);
impl<'py, T> PyReadonlyArrayDyn<'py, T> {
    pub fn of(v: Vec<T>) -> Self { PyReadonlyArrayDyn(Array(v), PhantomData) }
    pub fn as_array(&self) -> &Array<T> { &self.0 }
    pub fn len(&self) -> usize { self.0.0.len() }
}
pub trait IntoPyArray { type Item; fn into_pyarray<'py>(self, py: Python<'py>) -> &'py PyArrayDyn<Self::Item>; }
impl<T> IntoPyArray for Array<T> { type Item = T; fn into_pyarray<'py>(self, _: Python<'py>) -> &'py PyArrayDyn<T> { leak(self.0) } }
