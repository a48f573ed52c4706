//! Small dense f64 linear algebra, independent of ndarray/LAPACK, used by the reference model.

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub r: usize,
    pub c: usize,
    pub a: Vec<f64>,
}

impl Mat {
    pub fn zeros(r: usize, c: usize) -> Self {
        Mat { r, c, a: vec![0.; r * c] }
    }
    pub fn eye(n: usize) -> Self {
        let mut m = Mat::zeros(n, n);
        for i in 0..n {
            m.set(i, i, 1.);
        }
        m
    }
    pub fn from_rows(rows: &[Vec<f64>], c: usize) -> Self {
        let mut m = Mat::zeros(rows.len(), c);
        for (i, row) in rows.iter().enumerate() {
            assert_eq!(row.len(), c);
            m.a[i * c..(i + 1) * c].copy_from_slice(row);
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.c + j] = v;
    }
    #[inline]
    pub fn add(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.c + j] += v;
    }
    pub fn row(&self, i: usize) -> &[f64] {
        &self.a[i * self.c..(i + 1) * self.c]
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.r).map(|i| self.at(i, j)).collect()
    }
    pub fn t(&self) -> Mat {
        let mut m = Mat::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.at(i, j));
            }
        }
        m
    }
    pub fn mul(&self, o: &Mat) -> Mat {
        assert_eq!(self.c, o.r);
        let mut m = Mat::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let v = self.at(i, k);
                if v != 0. {
                    for j in 0..o.c {
                        m.a[i * o.c + j] += v * o.at(k, j);
                    }
                }
            }
        }
        m
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        assert_eq!(self.c, v.len());
        (0..self.r).map(|i| dot(self.row(i), v)).collect()
    }
    pub fn scale(&self, s: f64) -> Mat {
        Mat { r: self.r, c: self.c, a: self.a.iter().map(|x| x * s).collect() }
    }
    pub fn maxabs(&self) -> f64 {
        maxabs(&self.a)
    }
    pub fn diag(&self) -> Vec<f64> {
        (0..self.r.min(self.c)).map(|i| self.at(i, i)).collect()
    }
    pub fn finite(&self) -> bool {
        self.a.iter().all(|x| x.is_finite())
    }
    /// Inverse by Gauss-Jordan with full row pivoting; None if singular.
    pub fn inv(&self) -> Option<Mat> {
        let n = self.r;
        assert_eq!(n, self.c);
        let mut a = self.clone();
        let mut b = Mat::eye(n);
        for k in 0..n {
            let mut p = k;
            for i in k + 1..n {
                if a.at(i, k).abs() > a.at(p, k).abs() {
                    p = i;
                }
            }
            let piv = a.at(p, k);
            if !(piv.abs() > 1e-300) || !piv.is_finite() {
                return None;
            }
            if p != k {
                for j in 0..n {
                    a.a.swap(p * n + j, k * n + j);
                    b.a.swap(p * n + j, k * n + j);
                }
            }
            for j in 0..n {
                let v = a.at(k, j) / piv;
                a.set(k, j, v);
                let v = b.at(k, j) / piv;
                b.set(k, j, v);
            }
            for i in 0..n {
                if i != k {
                    let f = a.at(i, k);
                    if f != 0. {
                        for j in 0..n {
                            let v = a.at(k, j);
                            a.add(i, j, -f * v);
                            let v = b.at(k, j);
                            b.add(i, j, -f * v);
                        }
                    }
                }
            }
        }
        Some(b)
    }
    pub fn solve(&self, v: &[f64]) -> Option<Vec<f64>> {
        self.inv().map(|m| m.mulv(v))
    }
    /// Eigenvalues of a symmetric matrix (cyclic Jacobi).
    pub fn sym_eig(&self) -> Vec<f64> {
        let n = self.r;
        let mut a = self.clone();
        if !a.finite() {
            return vec![f64::NAN; n];
        }
        for _ in 0..60 {
            let mut off = 0.;
            for i in 0..n {
                for j in 0..n {
                    if i != j {
                        off += a.at(i, j) * a.at(i, j);
                    }
                }
            }
            let tr: f64 = a.diag().iter().map(|d| d * d).sum();
            if off <= 1e-30 * tr || off == 0. {
                break;
            }
            for p in 0..n {
                for q in p + 1..n {
                    let apq = a.at(p, q);
                    if apq == 0. {
                        continue;
                    }
                    let th = (a.at(q, q) - a.at(p, p)) / (2. * apq);
                    let t = th.signum() / (th.abs() + (th * th + 1.).sqrt());
                    let t = if th == 0. { 1. } else { t };
                    let c = 1. / (t * t + 1.).sqrt();
                    let s = t * c;
                    for k in 0..n {
                        let x = a.at(k, p);
                        let y = a.at(k, q);
                        a.set(k, p, c * x - s * y);
                        a.set(k, q, s * x + c * y);
                    }
                    for k in 0..n {
                        let x = a.at(p, k);
                        let y = a.at(q, k);
                        a.set(p, k, c * x - s * y);
                        a.set(q, k, s * x + c * y);
                    }
                }
            }
        }
        a.diag()
    }
    /// Condition number (2-norm) of a symmetric matrix after scaling to unit diagonal.
    pub fn cond_scaled(&self) -> f64 {
        let n = self.r;
        if n == 0 {
            return 1.;
        }
        let d: Vec<f64> = self.diag().iter().map(|x| x.abs().sqrt()).collect();
        if d.iter().any(|x| !(*x > 0.) || !x.is_finite()) {
            return f64::INFINITY;
        }
        let mut m = self.clone();
        for i in 0..n {
            for j in 0..n {
                m.set(i, j, self.at(i, j) / d[i] / d[j]);
            }
        }
        m.cond()
    }
    pub fn cond(&self) -> f64 {
        if self.r == 0 {
            return 1.;
        }
        let e = self.sym_eig();
        let mx = e.iter().cloned().fold(0., f64::max);
        let mn = e.iter().cloned().fold(f64::INFINITY, f64::min);
        if !(mn > 0.) || !mx.is_finite() { f64::INFINITY } else { mx / mn }
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0., |m, x| if x.is_nan() { f64::NAN } else { f64::max(m, x.abs()) })
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
