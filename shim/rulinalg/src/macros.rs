//! `matrix!`, `vector!` and the comparison macros.

#[macro_export]
macro_rules! vector {
    () => { { let v: Vec<_> = vec![]; $crate::vector::Vector::new(v) } };
    ($($x:expr),*) => { $crate::vector::Vector::new(vec![$($x),*]) };
    ($($x:expr,)*) => { vector![$($x),*] };
    ($x:expr; $n:expr) => { $crate::vector::Vector::new(vec![$x; $n]) };
}

#[macro_export]
macro_rules! matrix {
    () => { { $crate::matrix::Matrix::new(0, 0, vec![]) } };
    ($( $( $x:expr ),* );*) => {
        {
            let rows: Vec<Vec<_>> = vec![$( vec![$($x),*] ),*];
            let n = rows.len();
            let c = rows[0].len();
            for r in &rows { assert!(r.len() == c, "rows of unequal length in matrix!"); }
            let data: Vec<_> = rows.into_iter().flat_map(|r| r).collect();
            $crate::matrix::Matrix::new(n, c, data)
        }
    };
}

#[doc(hidden)]
pub fn close<T: PartialOrd + ::std::ops::Sub<T, Output = T> + Copy>(x: T, y: T, tol: T) -> bool {
    let d = if x > y { x - y } else { y - x };
    d <= tol
}

#[macro_export]
macro_rules! assert_scalar_eq {
    ($x:expr, $y:expr) => { { let (a, b) = (&$x, &$y); assert!(a == b, "{:?} != {:?}", a, b); } };
    ($x:expr, $y:expr, comp = exact) => { { let (a, b) = (&$x, &$y); assert!(a == b, "{:?} != {:?}", a, b); } };
    ($x:expr, $y:expr, comp = float) => { { let (a, b) = (&$x, &$y); assert!($crate::macros::feq((*a) as f64, (*b) as f64), "{:?} != {:?}", a, b); } };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { { let (a, b) = (&$x, &$y); assert!($crate::macros::close(*a, *b, $tol), "{:?} != {:?}", a, b); } };
}

#[doc(hidden)]
pub fn feq(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 4.0 * ::std::f64::EPSILON * a.abs().max(b.abs()) || (a - b).abs() <= 1e-15
}

#[macro_export]
macro_rules! assert_vector_eq {
    ($x:expr, $y:expr) => { assert_vector_eq!($x, $y, comp = exact) };
    ($x:expr, $y:expr, comp = exact) => { { let (a, b) = (&$x, &$y); assert!(a.data() == b.data(), "{:?} != {:?}", a, b); } };
    ($x:expr, $y:expr, comp = float) => { {
        let (a, b) = (&$x, &$y);
        assert!(a.size() == b.size() && a.data().iter().zip(b.data().iter()).all(|(x, y)| $crate::macros::feq(*x as f64, *y as f64)), "{:?} != {:?}", a, b);
    } };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { {
        let (a, b) = (&$x, &$y);
        assert!(a.size() == b.size() && a.data().iter().zip(b.data().iter()).all(|(x, y)| $crate::macros::close(*x, *y, $tol)), "{:?} != {:?}", a, b);
    } };
}

#[macro_export]
macro_rules! assert_matrix_eq {
    ($x:expr, $y:expr) => { assert_matrix_eq!($x, $y, comp = exact) };
    ($x:expr, $y:expr, comp = exact) => { {
        use $crate::matrix::BaseMatrix as _VBM;
        let (a, b) = (&$x, &$y);
        assert!(a.rows() == b.rows() && a.cols() == b.cols() && a.iter().zip(b.iter()).all(|(x, y)| x == y), "{:?} != {:?}", a, b);
    } };
    ($x:expr, $y:expr, comp = float) => { {
        use $crate::matrix::BaseMatrix as _VBM;
        let (a, b) = (&$x, &$y);
        assert!(a.rows() == b.rows() && a.cols() == b.cols() && a.iter().zip(b.iter()).all(|(x, y)| $crate::macros::feq(*x as f64, *y as f64)), "{:?} != {:?}", a, b);
    } };
    ($x:expr, $y:expr, comp = abs, tol = $tol:expr) => { {
        use $crate::matrix::BaseMatrix as _VBM;
        let (a, b) = (&$x, &$y);
        assert!(a.rows() == b.rows() && a.cols() == b.cols() && a.iter().zip(b.iter()).all(|(x, y)| $crate::macros::close(*x, *y, $tol)), "{:?} != {:?}", a, b);
    } };
}
