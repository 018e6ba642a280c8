//! Arithmetic.
use super::*;

macro_rules! elementwise {
    ($tr:ident, $op:ident; $([$($g:tt)*] $l:ty, $r:ty);* $(;)*) => { $(
        impl<$($g)* T: Copy + $tr<T, Output = T>> $tr<$r> for $l {
            type Output = Matrix<T>;
            fn $op(self, r: $r) -> Matrix<T> {
                assert!(self.cols() == r.cols(), "Column dimensions do not agree.");
                assert!(self.rows() == r.rows(), "Row dimensions do not agree.");
                Matrix::new(self.rows(), self.cols(), self.iter().zip(r.iter()).map(|(a, b)| (*a).$op(*b)).collect::<Vec<_>>())
            }
        }
    )* };
}
macro_rules! pairs {
    ($m:ident; $($pre:tt)*) => {
        $m!{ $($pre)*;
            [] Matrix<T>, Matrix<T>; ['a,] &'a Matrix<T>, Matrix<T>; ['b,] Matrix<T>, &'b Matrix<T>; ['a, 'b,] &'a Matrix<T>, &'b Matrix<T>;
            ['x,] Matrix<T>, MatrixSlice<'x, T>; ['a, 'x,] &'a Matrix<T>, MatrixSlice<'x, T>; ['b, 'x,] Matrix<T>, &'b MatrixSlice<'x, T>; ['a, 'b, 'x,] &'a Matrix<T>, &'b MatrixSlice<'x, T>;
            ['x,] Matrix<T>, MatrixSliceMut<'x, T>; ['a, 'x,] &'a Matrix<T>, MatrixSliceMut<'x, T>; ['b, 'x,] Matrix<T>, &'b MatrixSliceMut<'x, T>; ['a, 'b, 'x,] &'a Matrix<T>, &'b MatrixSliceMut<'x, T>;
            ['w,] MatrixSlice<'w, T>, Matrix<T>; ['a, 'w,] &'a MatrixSlice<'w, T>, Matrix<T>; ['b, 'w,] MatrixSlice<'w, T>, &'b Matrix<T>; ['a, 'b, 'w,] &'a MatrixSlice<'w, T>, &'b Matrix<T>;
            ['w, 'x,] MatrixSlice<'w, T>, MatrixSlice<'x, T>; ['a, 'w, 'x,] &'a MatrixSlice<'w, T>, MatrixSlice<'x, T>; ['b, 'w, 'x,] MatrixSlice<'w, T>, &'b MatrixSlice<'x, T>; ['a, 'b, 'w, 'x,] &'a MatrixSlice<'w, T>, &'b MatrixSlice<'x, T>;
            ['w, 'x,] MatrixSlice<'w, T>, MatrixSliceMut<'x, T>; ['a, 'w, 'x,] &'a MatrixSlice<'w, T>, MatrixSliceMut<'x, T>; ['b, 'w, 'x,] MatrixSlice<'w, T>, &'b MatrixSliceMut<'x, T>; ['a, 'b, 'w, 'x,] &'a MatrixSlice<'w, T>, &'b MatrixSliceMut<'x, T>;
            ['w,] MatrixSliceMut<'w, T>, Matrix<T>; ['a, 'w,] &'a MatrixSliceMut<'w, T>, Matrix<T>; ['b, 'w,] MatrixSliceMut<'w, T>, &'b Matrix<T>; ['a, 'b, 'w,] &'a MatrixSliceMut<'w, T>, &'b Matrix<T>;
            ['w, 'x,] MatrixSliceMut<'w, T>, MatrixSlice<'x, T>; ['a, 'w, 'x,] &'a MatrixSliceMut<'w, T>, MatrixSlice<'x, T>; ['b, 'w, 'x,] MatrixSliceMut<'w, T>, &'b MatrixSlice<'x, T>; ['a, 'b, 'w, 'x,] &'a MatrixSliceMut<'w, T>, &'b MatrixSlice<'x, T>;
            ['w, 'x,] MatrixSliceMut<'w, T>, MatrixSliceMut<'x, T>; ['a, 'w, 'x,] &'a MatrixSliceMut<'w, T>, MatrixSliceMut<'x, T>; ['b, 'w, 'x,] MatrixSliceMut<'w, T>, &'b MatrixSliceMut<'x, T>; ['a, 'b, 'w, 'x,] &'a MatrixSliceMut<'w, T>, &'b MatrixSliceMut<'x, T>;
        }
    };
}
pairs!(elementwise; Add, add);
pairs!(elementwise; Sub, sub);

fn product<T, A: BaseMatrix<T>, B: BaseMatrix<T>>(a: &A, b: &B) -> Matrix<T>
    where T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>
{
    assert!(a.cols() == b.rows(), "Matrix dimensions do not agree.");
    let (m, n) = (a.rows(), b.cols());
    let mut out = vec![T::zero(); m * n];
    for (i, ar) in a.row_iter().enumerate() {
        let o = &mut out[i * n..(i + 1) * n];
        for (x, br) in ar.raw_slice().iter().zip(b.row_iter()) {
            for (s, y) in o.iter_mut().zip(br.raw_slice().iter()) { *s = *s + *x * *y; }
        }
    }
    Matrix::new(m, n, out)
}
macro_rules! multiply {
    ($tr:ident, $op:ident; $([$($g:tt)*] $l:ty, $r:ty);* $(;)*) => { $(
        impl<$($g)* T: Any + Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> $tr<$r> for $l {
            type Output = Matrix<T>;
            fn $op(self, r: $r) -> Matrix<T> { product(&self.as_slice(), &r.as_slice()) }
        }
    )* };
}
pairs!(multiply; Mul, mul);

macro_rules! mat_vec {
    ($([$($g:tt)*] $l:ty);*) => { $(
        impl<$($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<Vector<T>> for $l {
            type Output = Vector<T>;
            fn mul(self, v: Vector<T>) -> Vector<T> { mv(&self.as_slice(), &v) }
        }
        impl<'v, $($g)* T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>> Mul<&'v Vector<T>> for $l {
            type Output = Vector<T>;
            fn mul(self, v: &'v Vector<T>) -> Vector<T> { mv(&self.as_slice(), v) }
        }
    )* };
}
fn mv<'w, T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(m: &MatrixSlice<'w, T>, v: &Vector<T>) -> Vector<T> {
    assert!(v.size() == m.cols(), "Matrix and Vector dimensions do not agree.");
    Vector::new(m.row_iter().map(|r| utils::dot(r.raw_slice(), v.data())).collect::<Vec<_>>())
}
mat_vec!([] Matrix<T>; ['a,] &'a Matrix<T>; ['w,] MatrixSlice<'w, T>; ['a, 'w,] &'a MatrixSlice<'w, T>; ['w,] MatrixSliceMut<'w, T>; ['a, 'w,] &'a MatrixSliceMut<'w, T>);

macro_rules! scalar {
    ($tr:ident, $op:ident; $([$($g:tt)*] $l:ty);*) => { $(
        impl<$($g)* T: Copy + $tr<T, Output = T>> $tr<T> for $l {
            type Output = Matrix<T>;
            fn $op(self, f: T) -> Matrix<T> { Matrix::new(self.rows(), self.cols(), self.iter().map(|a| (*a).$op(f)).collect::<Vec<_>>()) }
        }
        impl<'s, $($g)* T: Copy + $tr<T, Output = T>> $tr<&'s T> for $l {
            type Output = Matrix<T>;
            fn $op(self, f: &'s T) -> Matrix<T> { Matrix::new(self.rows(), self.cols(), self.iter().map(|a| (*a).$op(*f)).collect::<Vec<_>>()) }
        }
    )* };
}
macro_rules! scalars { ($($tr:ident, $op:ident);*) => { $(
    scalar!($tr, $op; [] Matrix<T>; ['a,] &'a Matrix<T>; ['w,] MatrixSlice<'w, T>; ['a, 'w,] &'a MatrixSlice<'w, T>; ['w,] MatrixSliceMut<'w, T>; ['a, 'w,] &'a MatrixSliceMut<'w, T>);
)* } }
scalars!(Add, add; Sub, sub; Mul, mul; Div, div);

macro_rules! assign_scalar {
    ($tr:ident, $op:ident, $b:ident, $bop:ident; $([$($g:tt)*] $l:ty);*) => { $(
        impl<$($g)* T: Copy + $b<T, Output = T>> $tr<T> for $l { fn $op(&mut self, f: T) { for x in self.iter_mut() { *x = (*x).$bop(f) } } }
        impl<'s, $($g)* T: Copy + $b<T, Output = T>> $tr<&'s T> for $l { fn $op(&mut self, f: &'s T) { for x in self.iter_mut() { *x = (*x).$bop(*f) } } }
    )* };
}
assign_scalar!(AddAssign, add_assign, Add, add; [] Matrix<T>; ['w,] MatrixSliceMut<'w, T>; ['w,] RowMut<'w, T>; ['w,] ColumnMut<'w, T>);
assign_scalar!(SubAssign, sub_assign, Sub, sub; [] Matrix<T>; ['w,] MatrixSliceMut<'w, T>; ['w,] RowMut<'w, T>; ['w,] ColumnMut<'w, T>);
assign_scalar!(MulAssign, mul_assign, Mul, mul; [] Matrix<T>; ['w,] MatrixSliceMut<'w, T>; ['w,] RowMut<'w, T>; ['w,] ColumnMut<'w, T>);
assign_scalar!(DivAssign, div_assign, Div, div; [] Matrix<T>; ['w,] MatrixSliceMut<'w, T>; ['w,] RowMut<'w, T>; ['w,] ColumnMut<'w, T>);

macro_rules! assign_mat {
    ($tr:ident, $op:ident, $b:ident, $bop:ident; $([$($g:tt)*] $l:ty, $r:ty);*) => { $(
        impl<$($g)* T: Copy + $b<T, Output = T>> $tr<$r> for $l {
            fn $op(&mut self, r: $r) {
                assert!(self.rows() == r.rows() && self.cols() == r.cols(), "Matrix dimensions do not agree.");
                for (x, y) in self.iter_mut().zip(r.iter()) { *x = (*x).$bop(*y) }
            }
        }
    )* };
}
macro_rules! assigns { ($($tr:ident, $op:ident, $b:ident, $bop:ident);*) => { $(
    assign_mat!($tr, $op, $b, $bop;
        [] Matrix<T>, Matrix<T>; ['b,] Matrix<T>, &'b Matrix<T>; ['x,] Matrix<T>, MatrixSlice<'x, T>; ['b, 'x,] Matrix<T>, &'b MatrixSlice<'x, T>;
        ['w,] MatrixSliceMut<'w, T>, Matrix<T>; ['b, 'w,] MatrixSliceMut<'w, T>, &'b Matrix<T>; ['w, 'x,] MatrixSliceMut<'w, T>, MatrixSlice<'x, T>; ['b, 'w, 'x,] MatrixSliceMut<'w, T>, &'b MatrixSlice<'x, T>);
)* } }
assigns!(AddAssign, add_assign, Add, add; SubAssign, sub_assign, Sub, sub);

macro_rules! unary {
    ($tr:ident, $op:ident; $([$($g:tt)*] $l:ty);*) => { $(
        impl<$($g)* T: Copy + $tr<Output = T>> $tr for $l {
            type Output = Matrix<T>;
            fn $op(self) -> Matrix<T> { Matrix::new(self.rows(), self.cols(), self.iter().map(|a| (*a).$op()).collect::<Vec<_>>()) }
        }
    )* };
}
unary!(Neg, neg; [] Matrix<T>; ['a,] &'a Matrix<T>; ['w,] MatrixSlice<'w, T>; ['a, 'w,] &'a MatrixSlice<'w, T>);
unary!(Not, not; [] Matrix<T>; ['a,] &'a Matrix<T>; ['w,] MatrixSlice<'w, T>; ['a, 'w,] &'a MatrixSlice<'w, T>);
