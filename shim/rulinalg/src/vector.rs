//! `Vector` (rulinalg 0.4.2 `vector` module).
use error::{Error, ErrorKind};
use libnum::{Float, FromPrimitive, One, Zero};
use norm::{VectorMetric, VectorNorm};
use std::fmt;
use std::iter::FromIterator;
use std::ops::{Add, AddAssign, BitAnd, Div, DivAssign, Index, IndexMut, Mul, MulAssign, Neg, Not, Rem, Sub, SubAssign};
use std::slice::{Iter, IterMut};
use std::vec;
use utils;

/// A column vector.
#[derive(Debug, PartialEq, Eq, Clone, Hash)]
pub struct Vector<T> {
    data: Vec<T>,
}

impl<T> Vector<T> {
    pub fn new<U: Into<Vec<T>>>(data: U) -> Vector<T> {
        Vector { data: data.into() }
    }
    pub fn from_fn<F>(size: usize, f: F) -> Vector<T>
        where F: FnMut(usize) -> T
    {
        Vector { data: (0..size).map(f).collect() }
    }
    pub fn size(&self) -> usize {
        self.data.len()
    }
    pub fn data(&self) -> &Vec<T> {
        &self.data
    }
    pub fn mut_data(&mut self) -> &mut [T] {
        &mut self.data
    }
    pub fn into_vec(self) -> Vec<T> {
        self.data
    }
    pub fn iter(&self) -> Iter<T> {
        self.data.iter()
    }
    pub fn iter_mut(&mut self) -> IterMut<T> {
        self.data.iter_mut()
    }
    pub fn as_slice(&self) -> &[T] {
        &self.data
    }
    pub unsafe fn get_unchecked(&self, i: usize) -> &T {
        self.data.get_unchecked(i)
    }
    pub unsafe fn get_unchecked_mut(&mut self, i: usize) -> &mut T {
        self.data.get_unchecked_mut(i)
    }
}

impl<T> Into<Vec<T>> for Vector<T> {
    fn into(self) -> Vec<T> {
        self.data
    }
}
impl<'a, T: Clone> From<&'a [T]> for Vector<T> {
    fn from(s: &'a [T]) -> Vector<T> {
        Vector { data: s.to_vec() }
    }
}
impl<T> FromIterator<T> for Vector<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Vector<T> {
        Vector { data: i.into_iter().collect() }
    }
}
impl<T> IntoIterator for Vector<T> {
    type Item = T;
    type IntoIter = vec::IntoIter<T>;
    fn into_iter(self) -> vec::IntoIter<T> {
        self.data.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a Vector<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.data.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vector<T> {
    type Item = &'a mut T;
    type IntoIter = IterMut<'a, T>;
    fn into_iter(self) -> IterMut<'a, T> {
        self.data.iter_mut()
    }
}
impl<T: fmt::Display> fmt::Display for Vector<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[")?;
        for (i, x) in self.data.iter().enumerate() {
            if i > 0 {
                write!(f, ", ")?;
            }
            x.fmt(f)?;
        }
        write!(f, "]")
    }
}
impl<T> Index<usize> for Vector<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.size());
        &self.data[i]
    }
}
impl<T> IndexMut<usize> for Vector<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.size());
        &mut self.data[i]
    }
}
impl<T: Copy> Vector<T> {
    pub fn apply<F: Fn(T) -> T + ?Sized>(mut self, f: &F) -> Vector<T> {
        for v in &mut self.data {
            *v = f(*v);
        }
        self
    }
}
impl<T: Clone> Vector<T> {
    /// A new vector of the chosen entries. Panics on an index out of range.
    pub fn select(&self, idxs: &[usize]) -> Vector<T> {
        Vector { data: idxs.iter().map(|&i| self.data[i].clone()).collect() }
    }
}
impl<T: Copy + PartialOrd> Vector<T> {
    pub fn argmax(&self) -> (usize, T) {
        utils::argmax(&self.data)
    }
    pub fn argmin(&self) -> (usize, T) {
        utils::argmin(&self.data)
    }
}
impl<T: Clone + Zero> Vector<T> {
    pub fn zeros(size: usize) -> Vector<T> {
        Vector { data: vec![T::zero(); size] }
    }
}
impl<T: Clone + One> Vector<T> {
    pub fn ones(size: usize) -> Vector<T> {
        Vector { data: vec![T::one(); size] }
    }
}
impl<T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Vector<T> {
    pub fn dot(&self, v: &Vector<T>) -> T {
        utils::dot(&self.data, &v.data)
    }
}
impl<T: Copy + Zero + Add<T, Output = T>> Vector<T> {
    pub fn sum(&self) -> T {
        utils::unrolled_sum(&self.data[..])
    }
}
impl<T: Copy + Mul<T, Output = T>> Vector<T> {
    pub fn elemul(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size(), v.size());
        Vector::new(utils::ele_mul(&self.data, &v.data))
    }
}
impl<T: Copy + Div<T, Output = T>> Vector<T> {
    pub fn elediv(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size(), v.size());
        Vector::new(utils::ele_div(&self.data, &v.data))
    }
}
impl<T: Float> Vector<T> {
    pub fn norm<N: VectorNorm<T>>(&self, norm: N) -> T {
        norm.norm(self)
    }
    pub fn metric<M: VectorMetric<T>>(&self, v: &Vector<T>, m: M) -> T {
        m.metric(self, v)
    }
}
impl<T: Float + FromPrimitive> Vector<T> {
    pub fn mean(&self) -> T {
        let sum = self.sum();
        sum / FromPrimitive::from_usize(self.size()).unwrap()
    }
    pub fn variance(&self) -> Result<T, Error> {
        let size = self.size();
        if size < 2 {
            return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two elements in the vector."));
        }
        let m = self.mean();
        let mut var = T::zero();
        for u in self.data.iter().map(|x| (*x - m) * (*x - m)) {
            var = var + u;
        }
        Ok(var / FromPrimitive::from_usize(size - 1).unwrap())
    }
}

macro_rules! vec_binop {
    ($tr:ident, $op:ident, $atr:ident, $aop:ident) => {
        // vector with vector
        impl<T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: Vector<T>) -> Vector<T> { (&self).$op(&r) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: Vector<T>) -> Vector<T> { self.$op(&r) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a Vector<T>> for Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: &'a Vector<T>) -> Vector<T> { (&self).$op(r) }
        }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b Vector<T>> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: &'b Vector<T>) -> Vector<T> {
                assert!(self.size() == r.size(), "Vector sizes do not match.");
                Vector { data: self.data.iter().zip(r.data.iter()).map(|(a, b)| (*a).$op(*b)).collect() }
            }
        }
        impl<T: Copy + $tr<T, Output = T>> $atr<Vector<T>> for Vector<T> {
            fn $aop(&mut self, r: Vector<T>) { self.$aop(&r) }
        }
        impl<'b, T: Copy + $tr<T, Output = T>> $atr<&'b Vector<T>> for Vector<T> {
            fn $aop(&mut self, r: &'b Vector<T>) {
                utils::in_place_vec_bin_op(&mut self.data, &r.data, |x, &y| { *x = (*x).$op(y) });
            }
        }
    };
}
macro_rules! vec_scalar {
    ($tr:ident, $op:ident, $atr:ident, $aop:ident) => {
        impl<T: Copy + $tr<T, Output = T>> $tr<T> for Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: T) -> Vector<T> { (&self).$op(&r) }
        }
        impl<'b, T: Copy + $tr<T, Output = T>> $tr<&'b T> for Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: &'b T) -> Vector<T> { (&self).$op(r) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<T> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: T) -> Vector<T> { self.$op(&r) }
        }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b T> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $op(self, r: &'b T) -> Vector<T> {
                let r = *r;
                Vector { data: self.data.iter().map(|a| (*a).$op(r)).collect() }
            }
        }
        impl<T: Copy + $tr<T, Output = T>> $atr<T> for Vector<T> {
            fn $aop(&mut self, r: T) { for x in &mut self.data { *x = (*x).$op(r) } }
        }
        impl<'b, T: Copy + $tr<T, Output = T>> $atr<&'b T> for Vector<T> {
            fn $aop(&mut self, r: &'b T) { for x in &mut self.data { *x = (*x).$op(*r) } }
        }
    };
}
vec_binop!(Add, add, AddAssign, add_assign);
vec_binop!(Sub, sub, SubAssign, sub_assign);
vec_scalar!(Add, add, AddAssign, add_assign);
vec_scalar!(Sub, sub, SubAssign, sub_assign);
vec_scalar!(Mul, mul, MulAssign, mul_assign);
vec_scalar!(Div, div, DivAssign, div_assign);

impl<T: Copy + Rem<T, Output = T>> Rem<T> for Vector<T> {
    type Output = Vector<T>;
    fn rem(self, r: T) -> Vector<T> { Vector { data: self.data.iter().map(|a| *a % r).collect() } }
}
impl<T: Copy + BitAnd<T, Output = T>> BitAnd<T> for Vector<T> {
    type Output = Vector<T>;
    fn bitand(self, r: T) -> Vector<T> { Vector { data: self.data.iter().map(|a| *a & r).collect() } }
}
impl<T: Neg<Output = T> + Copy> Neg for Vector<T> {
    type Output = Vector<T>;
    fn neg(mut self) -> Vector<T> { for x in &mut self.data { *x = -*x; } self }
}
impl<'a, T: Neg<Output = T> + Copy> Neg for &'a Vector<T> {
    type Output = Vector<T>;
    fn neg(self) -> Vector<T> { Vector { data: self.data.iter().map(|x| -*x).collect() } }
}
impl<T: Not<Output = T> + Copy> Not for Vector<T> {
    type Output = Vector<T>;
    fn not(mut self) -> Vector<T> { for x in &mut self.data { *x = !*x; } self }
}
