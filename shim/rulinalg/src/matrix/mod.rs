//! Matrices and slices (rulinalg 0.4.2 `matrix` module).
use error::{Error, ErrorKind};
use libnum::{Float, FromPrimitive, One, Zero};
use norm::{MatrixMetric, MatrixNorm};
use std::any::Any;
use std::fmt;
use std::iter::FromIterator;
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Deref, DerefMut, Div, DivAssign, Index, IndexMut, Mul, MulAssign, Neg, Not, Sub, SubAssign};
use std::slice;
use utils;
use vector::Vector;

pub mod decomposition;
mod ops;

/// Matrix axes.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Axes {
    /// Down the rows.
    Row,
    /// Along the columns.
    Col,
}

/// Diagonal offsets.
#[derive(Debug, PartialEq)]
pub enum DiagOffset { Main, Above(usize), Below(usize) }

/// A row-major matrix.
#[derive(Debug, PartialEq, Eq, Clone, Hash)]
pub struct Matrix<T> { rows: usize, cols: usize, data: Vec<T> }

/// A view of part of a matrix.
#[derive(Debug)]
pub struct MatrixSlice<'a, T: 'a> { ptr: *const T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a T> }

/// A mutable view of part of a matrix.
#[derive(Debug)]
pub struct MatrixSliceMut<'a, T: 'a> { ptr: *mut T, rows: usize, cols: usize, row_stride: usize, marker: PhantomData<&'a mut T> }

impl<'a, T> Clone for MatrixSlice<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for MatrixSlice<'a, T> {}

/// One row of a matrix.
#[derive(Debug)]
pub struct Row<'a, T: 'a> { row: MatrixSlice<'a, T> }
impl<'a, T> Clone for Row<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for Row<'a, T> {}
/// One mutable row of a matrix.
#[derive(Debug)]
pub struct RowMut<'a, T: 'a> { row: MatrixSliceMut<'a, T> }
/// One column of a matrix.
#[derive(Debug)]
pub struct Column<'a, T: 'a> { col: MatrixSlice<'a, T> }
impl<'a, T> Clone for Column<'a, T> { fn clone(&self) -> Self { *self } }
impl<'a, T> Copy for Column<'a, T> {}
/// One mutable column of a matrix.
#[derive(Debug)]
pub struct ColumnMut<'a, T: 'a> { col: MatrixSliceMut<'a, T> }

impl<'a, T> Deref for Row<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.row } }
impl<'a, T> Deref for RowMut<'a, T> { type Target = MatrixSliceMut<'a, T>; fn deref(&self) -> &MatrixSliceMut<'a, T> { &self.row } }
impl<'a, T> DerefMut for RowMut<'a, T> { fn deref_mut(&mut self) -> &mut MatrixSliceMut<'a, T> { &mut self.row } }
impl<'a, T> Deref for Column<'a, T> { type Target = MatrixSlice<'a, T>; fn deref(&self) -> &MatrixSlice<'a, T> { &self.col } }
impl<'a, T> Deref for ColumnMut<'a, T> { type Target = MatrixSliceMut<'a, T>; fn deref(&self) -> &MatrixSliceMut<'a, T> { &self.col } }
impl<'a, T> DerefMut for ColumnMut<'a, T> { fn deref_mut(&mut self) -> &mut MatrixSliceMut<'a, T> { &mut self.col } }

impl<'a, T: 'a> Row<'a, T> {
    /// The row as a slice.
    pub fn raw_slice(&self) -> &'a [T] { unsafe { slice::from_raw_parts(self.row.ptr, self.row.cols) } }
}
impl<'a, T: 'a> RowMut<'a, T> {
    /// The row as a slice.
    pub fn raw_slice(&self) -> &'a [T] { unsafe { slice::from_raw_parts(self.row.ptr, self.row.cols) } }
    /// The row as a mutable slice.
    pub fn raw_slice_mut(&mut self) -> &'a mut [T] { unsafe { slice::from_raw_parts_mut(self.row.ptr, self.row.cols) } }
}
impl<'a, T> Index<usize> for Row<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
impl<'a, T> Index<usize> for RowMut<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.raw_slice()[i] } }
impl<'a, T> IndexMut<usize> for RowMut<'a, T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.raw_slice_mut()[i] } }
impl<'a, T> Index<usize> for Column<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.col[[i, 0]] } }
impl<'a, T> Index<usize> for ColumnMut<'a, T> { type Output = T; fn index(&self, i: usize) -> &T { &self.col[[i, 0]] } }
impl<'a, T> IndexMut<usize> for ColumnMut<'a, T> { fn index_mut(&mut self, i: usize) -> &mut T { &mut self.col[[i, 0]] } }

/// Element iterator, row by row.
#[derive(Debug)]
pub struct SliceIter<'a, T: 'a> { ptr: *const T, rows: usize, cols: usize, stride: usize, r: usize, c: usize, marker: PhantomData<&'a T> }
/// Mutable element iterator, row by row.
#[derive(Debug)]
pub struct SliceIterMut<'a, T: 'a> { ptr: *mut T, rows: usize, cols: usize, stride: usize, r: usize, c: usize, marker: PhantomData<&'a mut T> }
impl<'a, T> Clone for SliceIter<'a, T> {
    fn clone(&self) -> Self { SliceIter { ptr: self.ptr, rows: self.rows, cols: self.cols, stride: self.stride, r: self.r, c: self.c, marker: PhantomData } }
}
macro_rules! slice_iter {
    ($n:ident, $item:ty, $get:expr) => {
        impl<'a, T> Iterator for $n<'a, T> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                if self.r >= self.rows || self.cols == 0 { return None; }
                let off = self.r * self.stride + self.c;
                self.c += 1;
                if self.c == self.cols { self.c = 0; self.r += 1; }
                Some(unsafe { $get(self.ptr, off) })
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                let n = if self.cols == 0 || self.r >= self.rows { 0 } else { (self.rows - self.r) * self.cols - self.c };
                (n, Some(n))
            }
        }
        impl<'a, T> ExactSizeIterator for $n<'a, T> {}
    };
}
unsafe fn at<'a, T>(p: *const T, o: usize) -> &'a T { &*p.add(o) }
unsafe fn at_mut<'a, T>(p: *mut T, o: usize) -> &'a mut T { &mut *p.add(o) }
slice_iter!(SliceIter, &'a T, at);
slice_iter!(SliceIterMut, &'a mut T, at_mut);

macro_rules! line_iter {
    ($n:ident, $item:ident, $ptr:ty, $build:expr) => {
        /// Iterates over rows or columns.
        #[derive(Debug)]
        pub struct $n<'a, T: 'a> { ptr: $ptr, start: usize, end: usize, len: usize, stride: usize, marker: PhantomData<&'a T> }
        impl<'a, T> Iterator for $n<'a, T> {
            type Item = $item<'a, T>;
            fn next(&mut self) -> Option<$item<'a, T>> {
                if self.start >= self.end { return None; }
                let i = self.start;
                self.start += 1;
                Some(unsafe { $build(self.ptr, i, self.len, self.stride) })
            }
            fn size_hint(&self) -> (usize, Option<usize>) { (self.end - self.start, Some(self.end - self.start)) }
        }
        impl<'a, T> DoubleEndedIterator for $n<'a, T> {
            fn next_back(&mut self) -> Option<$item<'a, T>> {
                if self.start >= self.end { return None; }
                self.end -= 1;
                Some(unsafe { $build(self.ptr, self.end, self.len, self.stride) })
            }
        }
        impl<'a, T> ExactSizeIterator for $n<'a, T> {}
    };
}
unsafe fn mk_row<'a, T>(p: *const T, i: usize, len: usize, stride: usize) -> Row<'a, T> {
    Row { row: MatrixSlice::from_raw_parts(p.wrapping_add(i * stride), 1, len, stride) }
}
unsafe fn mk_row_mut<'a, T>(p: *mut T, i: usize, len: usize, stride: usize) -> RowMut<'a, T> {
    RowMut { row: MatrixSliceMut::from_raw_parts(p.wrapping_add(i * stride), 1, len, stride) }
}
unsafe fn mk_col<'a, T>(p: *const T, i: usize, len: usize, stride: usize) -> Column<'a, T> {
    Column { col: MatrixSlice::from_raw_parts(p.wrapping_add(i), len, 1, stride) }
}
unsafe fn mk_col_mut<'a, T>(p: *mut T, i: usize, len: usize, stride: usize) -> ColumnMut<'a, T> {
    ColumnMut { col: MatrixSliceMut::from_raw_parts(p.wrapping_add(i), len, 1, stride) }
}
line_iter!(Rows, Row, *const T, mk_row);
line_iter!(RowsMut, RowMut, *mut T, mk_row_mut);
line_iter!(Cols, Column, *const T, mk_col);
line_iter!(ColsMut, ColumnMut, *mut T, mk_col_mut);
impl<'a, T> Clone for Rows<'a, T> { fn clone(&self) -> Self { Rows { ptr: self.ptr, start: self.start, end: self.end, len: self.len, stride: self.stride, marker: PhantomData } } }
impl<'a, T> Clone for Cols<'a, T> { fn clone(&self) -> Self { Cols { ptr: self.ptr, start: self.start, end: self.end, len: self.len, stride: self.stride, marker: PhantomData } } }

/// Diagonal iterator.
#[derive(Debug)]
pub struct Diagonal<'a, T: 'a> { items: ::std::vec::IntoIter<&'a T> }
impl<'a, T> Iterator for Diagonal<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> { self.items.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.items.size_hint() }
}
impl<'a, T> ExactSizeIterator for Diagonal<'a, T> {}

/// Read access to a matrix.
pub trait BaseMatrix<T>: Sized {
    fn rows(&self) -> usize;
    fn cols(&self) -> usize;
    fn row_stride(&self) -> usize;
    fn as_ptr(&self) -> *const T;

    fn is_empty(&self) -> bool { self.rows() == 0 || self.cols() == 0 }
    fn as_slice(&self) -> MatrixSlice<T> {
        unsafe { MatrixSlice::from_raw_parts(self.as_ptr(), self.rows(), self.cols(), self.row_stride()) }
    }
    unsafe fn get_unchecked(&self, index: [usize; 2]) -> &T {
        &*(self.as_ptr().add(index[0] * self.row_stride() + index[1]))
    }
    fn get(&self, index: [usize; 2]) -> Option<&T> {
        if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked(index)) } }
    }
    fn col(&self, index: usize) -> Column<T> {
        if index < self.cols() { unsafe { self.col_unchecked(index) } } else { panic!("Column index out of bounds.") }
    }
    unsafe fn col_unchecked(&self, index: usize) -> Column<T> { mk_col(self.as_ptr(), index, self.rows(), self.row_stride()) }
    fn row(&self, index: usize) -> Row<T> {
        if index < self.rows() { unsafe { self.row_unchecked(index) } } else { panic!("Row index out of bounds.") }
    }
    unsafe fn row_unchecked(&self, index: usize) -> Row<T> { mk_row(self.as_ptr(), index, self.cols(), self.row_stride()) }
    fn iter<'a>(&self) -> SliceIter<'a, T> where T: 'a {
        SliceIter { ptr: self.as_ptr(), rows: self.rows(), cols: self.cols(), stride: self.row_stride(), r: 0, c: 0, marker: PhantomData }
    }
    fn row_iter(&self) -> Rows<T> {
        Rows { ptr: self.as_ptr(), start: 0, end: self.rows(), len: self.cols(), stride: self.row_stride(), marker: PhantomData }
    }
    fn iter_rows(&self) -> Rows<T> { self.row_iter() }
    fn col_iter(&self) -> Cols<T> {
        Cols { ptr: self.as_ptr(), start: 0, end: self.cols(), len: self.rows(), stride: self.row_stride(), marker: PhantomData }
    }
    fn diag_iter(&self, k: DiagOffset) -> Diagonal<T> {
        let (r0, c0) = match k { DiagOffset::Main => (0, 0), DiagOffset::Above(m) => (0, m), DiagOffset::Below(m) => (m, 0) };
        let mut v = Vec::new();
        let mut i = 0;
        while r0 + i < self.rows() && c0 + i < self.cols() { v.push(unsafe { self.get_unchecked([r0 + i, c0 + i]) }); i += 1; }
        Diagonal { items: v.into_iter() }
    }
    fn diag(&self) -> Diagonal<T> { self.diag_iter(DiagOffset::Main) }
    fn sum_rows(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        let mut out = vec![T::zero(); self.cols()];
        for row in self.row_iter() { utils::in_place_vec_bin_op(&mut out, row.raw_slice(), |s, &r| *s = *s + r); }
        Vector::new(out)
    }
    fn sum_cols(&self) -> Vector<T> where T: Copy + Zero + Add<T, Output = T> {
        Vector::new(self.row_iter().map(|r| utils::unrolled_sum(r.raw_slice())).collect::<Vec<_>>())
    }
    fn sum(&self) -> T where T: Copy + Zero + Add<T, Output = T> {
        self.row_iter().fold(T::zero(), |s, r| s + utils::unrolled_sum(r.raw_slice()))
    }
    fn norm<N: MatrixNorm<T, Self>>(&self, norm: N) -> T where T: Float { norm.norm(self) }
    fn metric<'a, 'b, B, M>(&'a self, mat: &'b B, metric: M) -> T
        where B: 'b + BaseMatrix<T>, M: MatrixMetric<'a, 'b, T, Self, B> { metric.metric(self, mat) }
    fn min(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { extremum(self, axis, |a, b| a < b) }
    fn max(&self, axis: Axes) -> Vector<T> where T: Copy + PartialOrd { extremum(self, axis, |a, b| a > b) }
    fn into_matrix(self) -> Matrix<T> where T: Copy { Matrix::new(self.rows(), self.cols(), self.iter().map(|x| *x).collect::<Vec<_>>()) }
    fn select_rows<'a, I>(&self, rows: I) -> Matrix<T>
        where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone
    {
        let rows = rows.into_iter();
        let n = rows.len();
        let mut v = Vec::with_capacity(n * self.cols());
        for &r in rows { assert!(r < self.rows(), "Row index is greater than number of rows."); v.extend_from_slice(self.row(r).raw_slice()); }
        Matrix::new(n, self.cols(), v)
    }
    fn select_cols<'a, I>(&self, cols: I) -> Matrix<T>
        where T: Copy, I: IntoIterator<Item = &'a usize>, I::IntoIter: ExactSizeIterator + Clone
    {
        let cols = cols.into_iter();
        let n = cols.len();
        let mut v = Vec::with_capacity(n * self.rows());
        for r in 0..self.rows() {
            for &c in cols.clone() { assert!(c < self.cols(), "Column index is greater than number of columns."); v.push(unsafe { *self.get_unchecked([r, c]) }); }
        }
        Matrix::new(self.rows(), n, v)
    }
    fn select(&self, rows: &[usize], cols: &[usize]) -> Matrix<T> where T: Copy {
        let mut v = Vec::with_capacity(rows.len() * cols.len());
        for &r in rows { for &c in cols {
            assert!(r < self.rows(), "Row index is greater than number of rows.");
            assert!(c < self.cols(), "Column index is greater than number of columns.");
            v.push(unsafe { *self.get_unchecked([r, c]) });
        } }
        Matrix::new(rows.len(), cols.len(), v)
    }
    fn elemul(&self, m: &Self) -> Matrix<T> where T: Copy + Mul<T, Output = T> {
        assert!(self.rows() == m.rows() && self.cols() == m.cols(), "Matrices not the same shape.");
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a * *b).collect::<Vec<_>>())
    }
    fn elediv(&self, m: &Self) -> Matrix<T> where T: Copy + Div<T, Output = T> {
        assert!(self.rows() == m.rows() && self.cols() == m.cols(), "Matrices not the same shape.");
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a / *b).collect::<Vec<_>>())
    }
    fn vcat<S>(&self, m: &S) -> Matrix<T> where T: Copy, S: BaseMatrix<T> {
        assert!(self.cols() == m.cols(), "Matrix column counts are not equal.");
        Matrix::new(self.rows() + m.rows(), self.cols(), self.iter().chain(m.iter()).map(|x| *x).collect::<Vec<_>>())
    }
    fn hcat<S>(&self, m: &S) -> Matrix<T> where T: Copy, S: BaseMatrix<T> {
        assert!(self.rows() == m.rows(), "Matrix row counts are not equal.");
        let mut v = Vec::with_capacity((self.cols() + m.cols()) * self.rows());
        for (a, b) in self.row_iter().zip(m.row_iter()) { v.extend_from_slice(a.raw_slice()); v.extend_from_slice(b.raw_slice()); }
        Matrix::new(self.rows(), self.cols() + m.cols(), v)
    }
    fn transpose(&self) -> Matrix<T> where T: Copy {
        let mut v = Vec::with_capacity(self.rows() * self.cols());
        for c in 0..self.cols() { for r in 0..self.rows() { v.push(unsafe { *self.get_unchecked([r, c]) }); } }
        Matrix::new(self.cols(), self.rows(), v)
    }
    fn is_diag(&self) -> bool where T: Zero + PartialEq {
        let z = T::zero();
        (0..self.rows()).all(|r| (0..self.cols()).all(|c| r == c || unsafe { *self.get_unchecked([r, c]) == z }))
    }
    fn solve_u_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        assert!(self.rows() == self.cols(), "Matrix is not square.");
        let n = y.size();
        let mut x = y.into_vec();
        for i in (0..n).rev() {
            let d = unsafe { *self.get_unchecked([i, i]) };
            if d.abs() < T::epsilon() { return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular).")); }
            let s = utils::dot(&self.row(i).raw_slice()[i + 1..], &x[i + 1..]);
            x[i] = (x[i] - s) / d;
        }
        Ok(Vector::new(x))
    }
    fn solve_l_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error> where T: Any + Float {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        assert!(self.rows() == self.cols(), "Matrix is not square.");
        let n = y.size();
        let mut x = y.into_vec();
        for i in 0..n {
            let d = unsafe { *self.get_unchecked([i, i]) };
            if d.abs() < T::epsilon() { return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular).")); }
            let s = utils::dot(&self.row(i).raw_slice()[..i], &x[..i]);
            x[i] = (x[i] - s) / d;
        }
        Ok(Vector::new(x))
    }
    fn split_at(&self, mid: usize, axis: Axes) -> (MatrixSlice<T>, MatrixSlice<T>) {
        match axis {
            Axes::Row => { assert!(mid < self.rows()); (self.sub_slice([0, 0], mid, self.cols()), self.sub_slice([mid, 0], self.rows() - mid, self.cols())) }
            Axes::Col => { assert!(mid < self.cols()); (self.sub_slice([0, 0], self.rows(), mid), self.sub_slice([0, mid], self.rows(), self.cols() - mid)) }
        }
    }
    fn sub_slice<'a>(&self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        unsafe { MatrixSlice::from_raw_parts(self.as_ptr().wrapping_add(start[0] * self.row_stride() + start[1]), rows, cols, self.row_stride()) }
    }
}

fn extremum<T: Copy, M: BaseMatrix<T>, F: Fn(T, T) -> bool>(m: &M, axis: Axes, better: F) -> Vector<T> {
    let (outer, inner) = match axis { Axes::Row => (m.cols(), m.rows()), Axes::Col => (m.rows(), m.cols()) };
    let at = |o: usize, i: usize| unsafe { match axis { Axes::Row => *m.get_unchecked([i, o]), Axes::Col => *m.get_unchecked([o, i]) } };
    assert!(inner > 0);
    Vector::from_fn(outer, |o| { let mut b = at(o, 0); for i in 1..inner { if better(at(o, i), b) { b = at(o, i); } } b })
}

/// Write access to a matrix.
pub trait BaseMatrixMut<T>: BaseMatrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T;

    fn as_mut_slice(&mut self) -> MatrixSliceMut<T> {
        let (r, c, s) = (self.rows(), self.cols(), self.row_stride());
        unsafe { MatrixSliceMut::from_raw_parts(self.as_mut_ptr(), r, c, s) }
    }
    unsafe fn get_unchecked_mut(&mut self, index: [usize; 2]) -> &mut T {
        let s = self.row_stride();
        &mut *(self.as_mut_ptr().add(index[0] * s + index[1]))
    }
    fn get_mut(&mut self, index: [usize; 2]) -> Option<&mut T> {
        if index[0] >= self.rows() || index[1] >= self.cols() { None } else { unsafe { Some(self.get_unchecked_mut(index)) } }
    }
    fn iter_mut<'a>(&mut self) -> SliceIterMut<'a, T> where T: 'a {
        let (r, c, s) = (self.rows(), self.cols(), self.row_stride());
        SliceIterMut { ptr: self.as_mut_ptr(), rows: r, cols: c, stride: s, r: 0, c: 0, marker: PhantomData }
    }
    fn col_mut(&mut self, index: usize) -> ColumnMut<T> {
        if index < self.cols() { unsafe { self.col_unchecked_mut(index) } } else { panic!("Column index out of bounds.") }
    }
    unsafe fn col_unchecked_mut(&mut self, index: usize) -> ColumnMut<T> { let (r, s) = (self.rows(), self.row_stride()); mk_col_mut(self.as_mut_ptr(), index, r, s) }
    fn row_mut(&mut self, index: usize) -> RowMut<T> {
        if index < self.rows() { unsafe { self.row_unchecked_mut(index) } } else { panic!("Row index out of bounds.") }
    }
    unsafe fn row_unchecked_mut(&mut self, index: usize) -> RowMut<T> { let (c, s) = (self.cols(), self.row_stride()); mk_row_mut(self.as_mut_ptr(), index, c, s) }
    fn swap_rows(&mut self, a: usize, b: usize) {
        assert!(a < self.rows(), "Row index larger than row count");
        assert!(b < self.rows(), "Row index larger than row count");
        if a != b {
            let (c, s) = (self.cols(), self.row_stride());
            let p = self.as_mut_ptr();
            for j in 0..c { unsafe { ::std::ptr::swap(p.add(a * s + j), p.add(b * s + j)); } }
        }
    }
    fn swap_cols(&mut self, a: usize, b: usize) {
        assert!(a < self.cols(), "Row index larger than row count");
        assert!(b < self.cols(), "Row index larger than row count");
        if a != b {
            let (r, s) = (self.rows(), self.row_stride());
            let p = self.as_mut_ptr();
            for i in 0..r { unsafe { ::std::ptr::swap(p.add(i * s + a), p.add(i * s + b)); } }
        }
    }
    fn row_iter_mut(&mut self) -> RowsMut<T> {
        let (r, c, s) = (self.rows(), self.cols(), self.row_stride());
        RowsMut { ptr: self.as_mut_ptr(), start: 0, end: r, len: c, stride: s, marker: PhantomData }
    }
    fn iter_rows_mut(&mut self) -> RowsMut<T> { self.row_iter_mut() }
    fn col_iter_mut(&mut self) -> ColsMut<T> {
        let (r, c, s) = (self.rows(), self.cols(), self.row_stride());
        ColsMut { ptr: self.as_mut_ptr(), start: 0, end: c, len: r, stride: s, marker: PhantomData }
    }
    fn set_to<M: BaseMatrix<T>>(mut self, target: M) where T: Copy {
        assert!(self.rows() == target.rows(), "Target has different row count to self.");
        assert!(self.cols() == target.cols(), "Target has different column count to self.");
        for (a, b) in self.iter_mut().zip(target.iter()) { *a = *b; }
    }
    fn apply<F: Fn(T) -> T + ?Sized>(mut self, f: &F) -> Self where T: Copy {
        for v in self.iter_mut() { *v = f(*v); }
        self
    }
    fn split_at_mut(&mut self, mid: usize, axis: Axes) -> (MatrixSliceMut<T>, MatrixSliceMut<T>) {
        let (r, c, s) = (self.rows(), self.cols(), self.row_stride());
        let p = self.as_mut_ptr();
        unsafe { match axis {
            Axes::Row => { assert!(mid < r); (MatrixSliceMut::from_raw_parts(p, mid, c, s), MatrixSliceMut::from_raw_parts(p.add(mid * s), r - mid, c, s)) }
            Axes::Col => { assert!(mid < c); (MatrixSliceMut::from_raw_parts(p, r, mid, s), MatrixSliceMut::from_raw_parts(p.add(mid), r, c - mid, s)) }
        } }
    }
    fn sub_slice_mut<'a>(&mut self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> where T: 'a {
        assert!(start[0] + rows <= self.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= self.cols(), "View dimensions exceed matrix dimensions.");
        let s = self.row_stride();
        unsafe { MatrixSliceMut::from_raw_parts(self.as_mut_ptr().wrapping_add(start[0] * s + start[1]), rows, cols, s) }
    }
}

impl<T> BaseMatrix<T> for Matrix<T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.cols }
    fn as_ptr(&self) -> *const T { self.data.as_ptr() }
    fn into_matrix(self) -> Matrix<T> where T: Copy { self }
}
impl<T> BaseMatrixMut<T> for Matrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T { self.data.as_mut_ptr() }
}
impl<'a, T> BaseMatrix<T> for MatrixSlice<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr }
}
impl<'a, T> BaseMatrix<T> for MatrixSliceMut<'a, T> {
    fn rows(&self) -> usize { self.rows }
    fn cols(&self) -> usize { self.cols }
    fn row_stride(&self) -> usize { self.row_stride }
    fn as_ptr(&self) -> *const T { self.ptr as *const T }
}
impl<'a, T> BaseMatrixMut<T> for MatrixSliceMut<'a, T> {
    fn as_mut_ptr(&mut self) -> *mut T { self.ptr }
}
macro_rules! line_base {
    ($t:ident, $f:ident) => {
        impl<'a, T> BaseMatrix<T> for $t<'a, T> {
            fn rows(&self) -> usize { self.$f.rows }
            fn cols(&self) -> usize { self.$f.cols }
            fn row_stride(&self) -> usize { self.$f.row_stride }
            fn as_ptr(&self) -> *const T { self.$f.as_ptr() }
        }
    };
}
line_base!(Row, row);
line_base!(RowMut, row);
line_base!(Column, col);
line_base!(ColumnMut, col);
impl<'a, T> BaseMatrixMut<T> for RowMut<'a, T> { fn as_mut_ptr(&mut self) -> *mut T { self.row.ptr } }
impl<'a, T> BaseMatrixMut<T> for ColumnMut<'a, T> { fn as_mut_ptr(&mut self) -> *mut T { self.col.ptr } }

impl<'a, T> MatrixSlice<'a, T> {
    pub fn from_matrix(mat: &'a Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> { mat.sub_slice(start, rows, cols) }
    pub unsafe fn from_raw_parts(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> {
        MatrixSlice { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData }
    }
}
impl<'a, T> MatrixSliceMut<'a, T> {
    pub fn from_matrix(mat: &'a mut Matrix<T>, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> { mat.sub_slice_mut(start, rows, cols) }
    pub unsafe fn from_raw_parts(ptr: *mut T, rows: usize, cols: usize, row_stride: usize) -> MatrixSliceMut<'a, T> {
        MatrixSliceMut { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData }
    }
}

impl<T> Matrix<T> {
    pub fn new<U: Into<Vec<T>>>(rows: usize, cols: usize, data: U) -> Matrix<T> {
        let data = data.into();
        assert!(cols * rows == data.len(), "Data does not match given dimensions.");
        Matrix { rows: rows, cols: cols, data: data }
    }
    pub fn from_fn<F>(rows: usize, cols: usize, mut f: F) -> Matrix<T> where F: FnMut(usize, usize) -> T {
        let mut data = Vec::with_capacity(rows * cols);
        for r in 0..rows { for c in 0..cols { data.push(f(c, r)); } }
        Matrix { rows: rows, cols: cols, data: data }
    }
    pub fn data(&self) -> &Vec<T> { &self.data }
    pub fn mut_data(&mut self) -> &mut [T] { &mut self.data }
    pub fn into_vec(self) -> Vec<T> { self.data }
}
impl<T: Clone + Zero> Matrix<T> {
    pub fn zeros(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows: rows, cols: cols, data: vec![T::zero(); rows * cols] } }
    pub fn from_diag(diag: &[T]) -> Matrix<T> {
        let n = diag.len();
        let mut m = Matrix::zeros(n, n);
        for i in 0..n { m.data[i * (n + 1)] = diag[i].clone(); }
        m
    }
}
impl<T: Clone + One> Matrix<T> {
    pub fn ones(rows: usize, cols: usize) -> Matrix<T> { Matrix { rows: rows, cols: cols, data: vec![T::one(); rows * cols] } }
}
impl<T: Clone + Zero + One> Matrix<T> {
    pub fn identity(size: usize) -> Matrix<T> {
        let mut m = Matrix::zeros(size, size);
        for i in 0..size { m.data[i * (size + 1)] = T::one(); }
        m
    }
}
impl<T: Float + FromPrimitive> Matrix<T> {
    pub fn mean(&self, axis: Axes) -> Vector<T> {
        let (m, n) = match axis { Axes::Row => (self.sum_rows(), self.rows), Axes::Col => (self.sum_cols(), self.cols) };
        let n: T = FromPrimitive::from_usize(n).unwrap();
        m / n
    }
    pub fn variance(&self, axis: Axes) -> Result<Vector<T>, Error> {
        let mean = self.mean(axis);
        let n = match axis { Axes::Row => self.rows, Axes::Col => self.cols };
        if n < 2 {
            return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two rows or columns in working axis."));
        }
        let mut var = Vector::zeros(mean.size());
        for i in 0..n {
            let v = match axis {
                Axes::Row => Vector::new(self.row(i).raw_slice().to_vec()),
                Axes::Col => Vector::new((0..self.rows).map(|r| self.data[r * self.cols + i]).collect::<Vec<_>>()),
            };
            let d = &v - &mean;
            var = var + d.elemul(&d);
        }
        let s: T = FromPrimitive::from_usize(n - 1).unwrap();
        Ok(var / s)
    }
}
impl<T: Any + Float> Matrix<T> {
    pub fn solve(self, y: Vector<T>) -> Result<Vector<T>, Error> { decomposition::PartialPivLu::decompose(self)?.solve(y) }
    pub fn inverse(self) -> Result<Matrix<T>, Error> { decomposition::PartialPivLu::decompose(self)?.inverse() }
    pub fn det(self) -> T {
        assert!(self.rows == self.cols, "Matrix is not square.");
        match decomposition::PartialPivLu::decompose(self) { Ok(l) => l.det(), Err(_) => T::zero() }
    }
    pub fn svd(self) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> { decomposition::svd(self) }
}
impl<T: Any + Float> Matrix<T> {
    pub fn cholesky(&self) -> Result<Matrix<T>, Error> { Ok(decomposition::Decomposition::unpack(decomposition::Cholesky::decompose(self.clone())?)) }
}

impl<T> Index<[usize; 2]> for Matrix<T> {
    type Output = T;
    fn index(&self, i: [usize; 2]) -> &T { index(self, i) }
}
impl<T> IndexMut<[usize; 2]> for Matrix<T> { fn index_mut(&mut self, i: [usize; 2]) -> &mut T { index_mut(self, i) } }
impl<'a, T> Index<[usize; 2]> for MatrixSlice<'a, T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { index(self, i) } }
impl<'a, T> Index<[usize; 2]> for MatrixSliceMut<'a, T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { index(self, i) } }
impl<'a, T> IndexMut<[usize; 2]> for MatrixSliceMut<'a, T> { fn index_mut(&mut self, i: [usize; 2]) -> &mut T { index_mut(self, i) } }
fn index<T, M: BaseMatrix<T>>(m: &M, i: [usize; 2]) -> &T {
    assert!(i[0] < m.rows(), "Row index is greater than row dimension.");
    assert!(i[1] < m.cols(), "Column index is greater than column dimension.");
    unsafe { m.get_unchecked(i) }
}
fn index_mut<T, M: BaseMatrixMut<T>>(m: &mut M, i: [usize; 2]) -> &mut T {
    assert!(i[0] < m.rows(), "Row index is greater than row dimension.");
    assert!(i[1] < m.cols(), "Column index is greater than column dimension.");
    unsafe { m.get_unchecked_mut(i) }
}

impl<'a, T> IntoIterator for MatrixSlice<'a, T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; fn into_iter(self) -> SliceIter<'a, T> { self.iter() } }
impl<'a, 'b, T> IntoIterator for &'b MatrixSlice<'a, T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; fn into_iter(self) -> SliceIter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for MatrixSliceMut<'a, T> { type Item = &'a mut T; type IntoIter = SliceIterMut<'a, T>; fn into_iter(mut self) -> SliceIterMut<'a, T> { self.iter_mut() } }
impl<'a, T> IntoIterator for &'a Matrix<T> { type Item = &'a T; type IntoIter = SliceIter<'a, T>; fn into_iter(self) -> SliceIter<'a, T> { self.iter() } }
impl<'a, T> IntoIterator for &'a mut Matrix<T> { type Item = &'a mut T; type IntoIter = SliceIterMut<'a, T>; fn into_iter(self) -> SliceIterMut<'a, T> { self.iter_mut() } }

impl<'a, T: Copy> FromIterator<&'a [T]> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = &'a [T]>>(iterable: I) -> Matrix<T> {
        let mut data = Vec::new();
        let (mut rows, mut cols) = (0, 0);
        for row in iterable {
            if rows == 0 { cols = row.len(); }
            assert!(row.len() == cols, "Input slice length must match input dimensions.");
            data.extend_from_slice(row);
            rows += 1;
        }
        Matrix::new(rows, cols, data)
    }
}
impl<'a, T: Copy> FromIterator<Row<'a, T>> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = Row<'a, T>>>(iterable: I) -> Matrix<T> { iterable.into_iter().map(|r| r.raw_slice()).collect() }
}
impl<'a, T: Copy> FromIterator<Vector<T>> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = Vector<T>>>(iterable: I) -> Matrix<T> {
        let v: Vec<Vector<T>> = iterable.into_iter().collect();
        v.iter().map(|r| &r.data()[..]).collect()
    }
}
impl<'a, T: Copy> From<MatrixSlice<'a, T>> for Matrix<T> { fn from(s: MatrixSlice<'a, T>) -> Matrix<T> { s.into_matrix() } }
impl<'a, T: Copy> From<MatrixSliceMut<'a, T>> for Matrix<T> { fn from(s: MatrixSliceMut<'a, T>) -> Matrix<T> { s.into_matrix() } }
impl<'a, T: Copy> From<Row<'a, T>> for Matrix<T> { fn from(s: Row<'a, T>) -> Matrix<T> { s.row.into_matrix() } }
impl<'a, T: Copy> From<Row<'a, T>> for Vector<T> { fn from(s: Row<'a, T>) -> Vector<T> { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<RowMut<'a, T>> for Vector<T> { fn from(s: RowMut<'a, T>) -> Vector<T> { Vector::new(s.raw_slice().to_vec()) } }
impl<'a, T: Copy> From<Column<'a, T>> for Vector<T> { fn from(s: Column<'a, T>) -> Vector<T> { Vector::new(s.col.iter().map(|x| *x).collect::<Vec<_>>()) } }
impl<T> From<Vector<T>> for Matrix<T> { fn from(v: Vector<T>) -> Matrix<T> { let n = v.size(); Matrix::new(n, 1, v.into_vec()) } }

impl<T: fmt::Display> fmt::Display for Matrix<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, row) in self.row_iter().enumerate() {
            if i > 0 { writeln!(f, "")?; }
            write!(f, "⎡")?;
            for (j, x) in row.raw_slice().iter().enumerate() { if j > 0 { write!(f, " ")?; } x.fmt(f)?; }
            write!(f, "⎤")?;
        }
        Ok(())
    }
}
#[allow(unused_imports)]
use self::unused::*;
mod unused { }
#[allow(dead_code)]
type _Ops = (PhantomData<Add<u8, Output = u8>>, PhantomData<AddAssign<u8>>);
#[allow(dead_code)]
fn _keep<T: Sub + SubAssign + MulAssign + DivAssign + Neg + Not>() {}
