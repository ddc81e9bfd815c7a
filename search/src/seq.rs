//! Executable counterparts of the mathematical types the specification uses.
use std::ops::{Add, Index};
use std::rc::Rc;

#[allow(non_camel_case_types)]
pub type int = i64;

/// An immutable sequence; slices share storage.
pub struct Seq<T> {
    v: Rc<Vec<T>>,
    a: usize,
    b: usize,
}
impl<T> Clone for Seq<T> {
    fn clone(&self) -> Self { Seq { v: self.v.clone(), a: self.a, b: self.b } }
}
impl<T: Clone> Seq<T> {
    pub fn of(v: Vec<T>) -> Self { let b = v.len(); Seq { v: Rc::new(v), a: 0, b } }
    pub fn empty() -> Self { Seq::of(Vec::new()) }
    pub fn len(&self) -> int { (self.b - self.a) as int }
    pub fn as_slice(&self) -> &[T] { &self.v[self.a..self.b] }
    fn part(&self, a: int, b: int) -> Self {
        let n = self.len();
        let a = a.clamp(0, n) as usize;
        let b = (b.clamp(0, n) as usize).max(a);
        Seq { v: self.v.clone(), a: self.a + a, b: self.a + b }
    }
    pub fn skip(&self, n: int) -> Self { self.part(n, self.len()) }
    pub fn take(&self, n: int) -> Self { self.part(0, n) }
    pub fn subrange(&self, a: int, b: int) -> Self { self.part(a, b) }
    pub fn drop_last(&self) -> Self { self.part(0, self.len() - 1) }
    pub fn last(&self) -> T { self.v[self.b - 1].clone() }
    pub fn push(&self, t: T) -> Self {
        let mut v = self.as_slice().to_vec();
        v.push(t);
        Seq::of(v)
    }
}
impl<T> Index<int> for Seq<T> {
    type Output = T;
    fn index(&self, i: int) -> &T { &self.v[self.a..self.b][i as usize] }
}
impl<T: Clone> Add for Seq<T> {
    type Output = Seq<T>;
    fn add(self, o: Self) -> Self {
        let mut v = self.as_slice().to_vec();
        v.extend_from_slice(o.as_slice());
        Seq::of(v)
    }
}
impl<T: PartialEq + Clone> PartialEq for Seq<T> {
    fn eq(&self, o: &Self) -> bool { self.as_slice() == o.as_slice() }
}
impl<T: std::fmt::Debug + Clone> std::fmt::Debug for Seq<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.as_slice().fmt(f) }
}
#[macro_export]
macro_rules! seq { ($($t:tt)*) => { $crate::seq::Seq::of(vec![$($t)*]) } }
