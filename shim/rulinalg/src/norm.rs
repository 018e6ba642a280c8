//! Norms and metrics (rulinalg 0.4.2 `norm` module).
use libnum::Float;
use matrix::BaseMatrix;
use std::ops::Sub;
use utils;
use vector::Vector;
use matrix::{Matrix, MatrixSlice};

pub trait VectorNorm<T> { fn norm(&self, v: &Vector<T>) -> T; }
pub trait VectorMetric<T> { fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T; }
pub trait MatrixNorm<T, M: BaseMatrix<T>> { fn norm(&self, m: &M) -> T; }
pub trait MatrixMetric<'a, 'b, T, M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>> {
    fn metric(&self, m1: &'a M1, m2: &'b M2) -> T;
}

impl<U, T> VectorMetric<T> for U
    where U: VectorNorm<T>, T: Copy + Sub<T, Output = T>
{
    fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T { self.norm(&(v1 - v2)) }
}
impl<'a, 'b, U, T, M1, M2> MatrixMetric<'a, 'b, T, M1, M2> for U
    where U: MatrixNorm<T, Matrix<T>>, M1: 'a + BaseMatrix<T>, M2: 'b + BaseMatrix<T>,
          &'a M1: Sub<&'b M2, Output = Matrix<T>>
{
    fn metric(&self, m1: &'a M1, m2: &'b M2) -> T { self.norm(&(m1 - m2)) }
}

/// The Euclidean (Frobenius) norm.
#[derive(Debug)]
pub struct Euclidean;

impl<T: Float> VectorNorm<T> for Euclidean {
    fn norm(&self, v: &Vector<T>) -> T { utils::dot(v.data(), v.data()).sqrt() }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Euclidean {
    fn norm(&self, m: &M) -> T {
        let mut s = T::zero();
        for row in m.row_iter() {
            s = s + utils::dot(row.raw_slice(), row.raw_slice());
        }
        s.sqrt()
    }
}

/// The Lp norms.
#[derive(Debug)]
pub enum Lp<T: Float> {
    Infinity,
    Integer(i32),
    Float(T),
}

fn lp<T: Float, I: Iterator<Item = T>>(p: &Lp<T>, it: I) -> T {
    match *p {
        Lp::Infinity => {
            let mut m = T::zero();
            for x in it { if x.abs() > m { m = x.abs(); } }
            m
        }
        Lp::Integer(p) => {
            assert!(p >= 1, "p value in Lp norm must be >= 1");
            let mut s = T::zero();
            for x in it { s = s + x.abs().powi(p); }
            s.powf(T::from(p).expect("Could not cast i32 to float").recip())
        }
        Lp::Float(f) => {
            assert!(f >= T::one(), "p value in Lp norm must be >= 1");
            let mut s = T::zero();
            for x in it { s = s + x.abs().powf(f); }
            s.powf(f.recip())
        }
    }
}
impl<T: Float> VectorNorm<T> for Lp<T> {
    fn norm(&self, v: &Vector<T>) -> T { lp(self, v.iter().map(|x| *x)) }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Lp<T> {
    fn norm(&self, m: &M) -> T { lp(self, m.iter().map(|x| *x)) }
}
#[allow(dead_code)]
fn _unused<'a, T>(_: MatrixSlice<'a, T>) {}
