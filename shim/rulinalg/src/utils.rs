//! Slice helpers (rulinalg 0.4.2 `utils` module).
use libnum::Zero;
use std::cmp;
use std::ops::{Add, Div, Mul, Sub};

/// Dot product over the shorter of the two lengths (eight partial sums, as upstream).
pub fn dot<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(u: &[T], v: &[T]) -> T {
    let len = cmp::min(u.len(), v.len());
    let mut xs = &u[..len];
    let mut ys = &v[..len];
    let mut s = T::zero();
    let mut p = [T::zero(); 8];
    while xs.len() >= 8 {
        for i in 0..8 {
            p[i] = p[i] + xs[i] * ys[i];
        }
        xs = &xs[8..];
        ys = &ys[8..];
    }
    s = s + p[0] + p[4];
    s = s + p[1] + p[5];
    s = s + p[2] + p[6];
    s = s + p[3] + p[7];
    for i in 0..xs.len() {
        s = s + xs[i] * ys[i];
    }
    s
}

/// Sum of a slice (eight partial sums, as upstream).
pub fn unrolled_sum<T: Clone + Zero + Add<T, Output = T>>(mut xs: &[T]) -> T {
    let mut sum = T::zero();
    let mut p: Vec<T> = vec![T::zero(); 8];
    while xs.len() >= 8 {
        for i in 0..8 {
            p[i] = p[i].clone() + xs[i].clone();
        }
        xs = &xs[8..];
    }
    sum = sum.clone() + (p[0].clone() + p[4].clone());
    sum = sum.clone() + (p[1].clone() + p[5].clone());
    sum = sum.clone() + (p[2].clone() + p[6].clone());
    sum = sum.clone() + (p[3].clone() + p[7].clone());
    for x in xs {
        sum = sum.clone() + x.clone();
    }
    sum
}

pub fn in_place_vec_bin_op<F, T>(u: &mut [T], v: &[T], mut f: F)
    where F: FnMut(&mut T, &T), T: Copy
{
    debug_assert_eq!(u.len(), v.len());
    let len = cmp::min(u.len(), v.len());
    let ys = &v[..len];
    let xs = &mut u[..len];
    for i in 0..len {
        f(&mut xs[i], &ys[i])
    }
}

pub fn vec_bin_op<F, T>(u: &[T], v: &[T], f: F) -> Vec<T>
    where F: Fn(T, T) -> T, T: Copy
{
    debug_assert_eq!(u.len(), v.len());
    let len = cmp::min(u.len(), v.len());
    (0..len).map(|i| f(u[i], v[i])).collect()
}

pub fn vec_sum<T: Copy + Zero + Add<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x + y) }
pub fn vec_sub<T: Copy + Sub<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x - y) }
pub fn ele_mul<T: Copy + Mul<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x * y) }
pub fn ele_div<T: Copy + Div<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> { vec_bin_op(u, v, |x, y| x / y) }

/// Index and value of the (first) greatest entry. Panics on an empty slice.
pub fn argmax<T>(u: &[T]) -> (usize, T)
    where T: Copy + PartialOrd
{
    assert!(u.len() != 0);
    let mut max_index = 0;
    let mut max = u[max_index];
    for (i, v) in u.iter().enumerate().skip(1) {
        if max < *v {
            max_index = i;
            max = *v;
        }
    }
    (max_index, max)
}

/// Index and value of the (first) smallest entry. Panics on an empty slice.
pub fn argmin<T>(u: &[T]) -> (usize, T)
    where T: Copy + PartialOrd
{
    assert!(u.len() != 0);
    let mut min_index = 0;
    let mut min_value = u[min_index];
    for (i, v) in u.iter().enumerate().skip(1) {
        if min_value > *v {
            min_index = i;
            min_value = *v;
        }
    }
    (min_index, min_value)
}

/// Index of an entry, panicking when absent.
pub fn find<T>(p: &[T], u: T) -> usize
    where T: PartialOrd
{
    for (i, v) in p.iter().enumerate() {
        if *v == u {
            return i;
        }
    }
    panic!("Value not found.")
}
