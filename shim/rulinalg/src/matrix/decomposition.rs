//! Decompositions.
use super::*;

pub trait Decomposition {
    type Factors;
    fn unpack(self) -> Self::Factors;
}

/// P A = L U with partial pivoting.
#[derive(Debug, Clone)]
pub struct PartialPivLu<T> { lu: Matrix<T>, p: Vec<usize>, swaps: usize }

/// Factors of a `PartialPivLu` (row `i` of P A is row `p[i]` of A).
#[derive(Debug, Clone)]
pub struct LUP<T> { pub l: Matrix<T>, pub u: Matrix<T>, pub p: Vec<usize> }

impl<T: Clone + One + Zero + Copy> Decomposition for PartialPivLu<T> {
    type Factors = LUP<T>;
    fn unpack(self) -> LUP<T> {
        let n = self.lu.rows;
        let lu = self.lu;
        let l = Matrix::from_fn(n, n, |c, r| if r == c { T::one() } else if r > c { lu.data[r * n + c] } else { T::zero() });
        let u = Matrix::from_fn(n, n, |c, r| if r > c { T::zero() } else { lu.data[r * n + c] });
        LUP { l: l, u: u, p: self.p }
    }
}

impl<T: Any + Float> PartialPivLu<T> {
    pub fn decompose(matrix: Matrix<T>) -> Result<PartialPivLu<T>, Error> {
        assert!(matrix.rows == matrix.cols, "Matrix must be square for LU decomposition.");
        let n = matrix.cols;
        let mut lu = matrix;
        let mut p: Vec<usize> = (0..n).collect();
        let mut swaps = 0;
        for k in 0..n {
            let mut best = k;
            for i in k + 1..n { if lu.data[i * n + k].abs() > lu.data[best * n + k].abs() { best = i; } }
            let pivot = lu.data[best * n + k];
            if pivot.abs() < T::epsilon() {
                return Err(Error::new(ErrorKind::DivByZero, "The matrix is too ill-conditioned for LU decomposition with partial pivoting."));
            }
            if best != k { lu.swap_rows(k, best); p.swap(k, best); swaps += 1; }
            for i in k + 1..n {
                let f = lu.data[i * n + k] / pivot;
                lu.data[i * n + k] = f;
                for j in k + 1..n { let s = f * lu.data[k * n + j]; lu.data[i * n + j] = lu.data[i * n + j] - s; }
            }
        }
        Ok(PartialPivLu { lu: lu, p: p, swaps: swaps })
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        let n = self.lu.rows;
        assert!(b.size() == n, "Right-hand side vector must have compatible size.");
        let mut x: Vec<T> = self.p.iter().map(|&i| b[i]).collect();
        for i in 0..n { for j in 0..i { let s = self.lu.data[i * n + j] * x[j]; x[i] = x[i] - s; } }
        for i in (0..n).rev() {
            for j in i + 1..n { let s = self.lu.data[i * n + j] * x[j]; x[i] = x[i] - s; }
            x[i] = x[i] / self.lu.data[i * n + i];
        }
        Ok(Vector::new(x))
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        let n = self.lu.rows;
        let mut inv = Matrix::zeros(n, n);
        for c in 0..n {
            let mut e = Vector::zeros(n);
            e[c] = T::one();
            let x = self.solve(e)?;
            for r in 0..n { inv.data[r * n + c] = x[r]; }
        }
        Ok(inv)
    }
    pub fn det(&self) -> T {
        let n = self.lu.rows;
        let d = (0..n).fold(T::one(), |d, i| d * self.lu.data[i * n + i]);
        if self.swaps % 2 == 0 { d } else { -d }
    }
}

/// A = L L^T.
#[derive(Debug, Clone)]
pub struct Cholesky<T> { l: Matrix<T> }

impl<T> Decomposition for Cholesky<T> { type Factors = Matrix<T>; fn unpack(self) -> Matrix<T> { self.l } }

impl<T: Any + Float> Cholesky<T> {
    pub fn decompose(matrix: Matrix<T>) -> Result<Cholesky<T>, Error> {
        assert!(matrix.rows == matrix.cols, "Matrix must be square for Cholesky decomposition.");
        let n = matrix.rows;
        let mut a = matrix;
        for j in 0..n {
            let row: Vec<T> = a.data[j * n..j * n + j].to_vec();
            let diag = a.data[j * n + j] - utils::dot(&row, &row);
            if diag.abs() < T::epsilon() {
                return Err(Error::new(ErrorKind::DecompFailure, "Matrix is singular to working precision."));
            }
            if !(diag > T::zero()) {
                return Err(Error::new(ErrorKind::DecompFailure, "Diagonal entries of matrix are not all positive."));
            }
            let d = diag.sqrt();
            a.data[j * n + j] = d;
            for i in j + 1..n {
                let s = utils::dot(&a.data[i * n..i * n + j], &row);
                a.data[i * n + j] = (a.data[i * n + j] - s) / d;
            }
            for c in j + 1..n { a.data[j * n + c] = T::zero(); }
        }
        Ok(Cholesky { l: a })
    }
    pub fn det(&self) -> T { let n = self.l.rows; (0..n).fold(T::one(), |d, i| d * self.l.data[i * n + i] * self.l.data[i * n + i]) }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> { let y = self.l.solve_l_triangular(b)?; self.l.transpose().solve_u_triangular(y) }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        let n = self.l.rows;
        let mut inv = Matrix::zeros(n, n);
        for c in 0..n {
            let mut e = Vector::zeros(n);
            e[c] = T::one();
            let x = self.solve(e)?;
            for r in 0..n { inv.data[r * n + c] = x[r]; }
        }
        Ok(inv)
    }
}

/// Thin singular value decomposition, `A = U B V^T` (one-sided Jacobi; the singular values descend).
/// With `p = min(rows, cols)`: B is p x p, U is rows x p, V is cols x p.
pub fn svd<T: Any + Float>(m: Matrix<T>) -> Result<(Matrix<T>, Matrix<T>, Matrix<T>), Error> {
    if m.cols > m.rows {
        let (b, u, v) = svd(m.transpose())?;
        return Ok((b.transpose(), v, u));
    }
    let (rows, n) = (m.rows, m.cols);
    let mut a: Vec<Vec<T>> = (0..n).map(|c| (0..rows).map(|r| m.data[r * n + c]).collect()).collect();
    let mut v: Vec<Vec<T>> = (0..n).map(|c| (0..n).map(|r| if r == c { T::one() } else { T::zero() }).collect()).collect();
    if m.data.iter().any(|x| !x.is_finite()) {
        return Err(Error::new(ErrorKind::DecompFailure, "SVD did not converge."));
    }
    let two = T::one() + T::one();
    for _ in 0..60 {
        let mut rotated = false;
        for p in 0..n {
            for q in p + 1..n {
                let (alpha, beta, gamma) = (utils::dot(&a[p], &a[p]), utils::dot(&a[q], &a[q]), utils::dot(&a[p], &a[q]));
                if gamma == T::zero() || gamma.abs() <= T::epsilon() * (alpha * beta).sqrt() { continue; }
                rotated = true;
                let zeta = (beta - alpha) / (two * gamma);
                let t = zeta.signum() / (zeta.abs() + (T::one() + zeta * zeta).sqrt());
                let c = T::one() / (T::one() + t * t).sqrt();
                let s = c * t;
                for w in &mut [&mut a, &mut v] {
                    for i in 0..w[p].len() {
                        let (x, y) = (w[p][i], w[q][i]);
                        w[p][i] = c * x - s * y;
                        w[q][i] = s * x + c * y;
                    }
                }
            }
        }
        if !rotated { break; }
    }
    let sv: Vec<T> = a.iter().map(|c| utils::dot(c, c).sqrt()).collect();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|&i, &j| sv[j].partial_cmp(&sv[i]).unwrap());
    let big = order.first().map(|&i| sv[i]).unwrap_or(T::zero());
    // left vectors; those of (numerically) zero singular values are completed orthonormally
    let mut u: Vec<Vec<T>> = Vec::with_capacity(n);
    for &i in &order {
        let tiny = big * T::epsilon() * T::from(rows.max(1) * 4).unwrap();
        if sv[i] > tiny {
            u.push(a[i].iter().map(|x| *x / sv[i]).collect());
        } else {
            let mut best: Option<Vec<T>> = None;
            for e in 0..rows {
                let mut w: Vec<T> = (0..rows).map(|r| if r == e { T::one() } else { T::zero() }).collect();
                for _ in 0..2 { for x in &u { let d = utils::dot(x, &w); for r in 0..rows { w[r] = w[r] - d * x[r]; } } }
                let norm = utils::dot(&w, &w).sqrt();
                if norm * two * two > T::one() / T::from(rows).unwrap().sqrt() {
                    for r in 0..rows { w[r] = w[r] / norm; }
                    best = Some(w);
                    break;
                }
            }
            u.push(best.unwrap_or_else(|| vec![T::zero(); rows]));
        }
    }
    let b = Matrix::from_fn(n, n, |c, r| if r == c { sv[order[c]] } else { T::zero() });
    let um = Matrix::from_fn(rows, n, |c, r| u[c][r]);
    let vm = Matrix::from_fn(n, n, |c, r| v[order[c]][r]);
    Ok((b, um, vm))
}
