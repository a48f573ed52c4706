//! Reference model: every documented quantity recomputed from the definitions, in f64, in the
//! external (user) basis.
use crate::case::Case;
use crate::family::Fam;
use crate::linalg::*;

pub struct Ref {
    pub fam: Fam,
    pub n: usize,
    pub k: usize,
    pub icpt: bool,
    pub std: bool,
    /// external design matrix including the intercept column
    pub x: Mat,
    pub y: Vec<f64>,
    pub off: Vec<f64>,
    /// variance weights, frequency weights, and their product
    pub w: Vec<f64>,
    pub f: Vec<f64>,
    pub wt: Vec<f64>,
    pub has_w: bool,
    /// per-parameter standardisation used by the library for its penalty (1 for the intercept and
    /// when standardisation is off)
    pub sd: Vec<f64>,
    pub mean: Vec<f64>,
    pub l1: f64,
    pub l2: f64,
    pub eps: f64,
    /// the unit of the response, if far from one, and the corresponding linear predictor, variance
    /// and derivative of the natural parameter
    pub u_mu: f64,
    pub u_om: f64,
    pub u_v: f64,
    pub u_de: f64,
}

/// Everything evaluated at one parameter vector.
pub struct At {
    pub b: Vec<f64>,
    pub om: Vec<f64>,
    pub mu: Vec<f64>,
    pub v: Vec<f64>,
    pub de: Vec<f64>,
    pub e: Vec<f64>,
}

/// Weighted mean and sample standard deviation (ddof = 1 in effective observations).
pub fn col_moments(col: &[f64], wt: &[f64], n_eff: f64) -> (f64, f64) {
    let sw: f64 = wt.iter().sum();
    if col.is_empty() || !(sw > 0.) {
        return (0., 1.);
    }
    let x0 = col[0];
    let m = x0 + col.iter().zip(wt).map(|(x, w)| w * (x - x0)).sum::<f64>() / sw;
    if col.len() <= 1 {
        return (m, 1.);
    }
    let act: Vec<f64> = col.iter().zip(wt).filter(|(_, w)| **w > 0.).map(|(x, _)| *x).collect();
    if act.iter().all(|x| *x == act[0]) || n_eff <= 1. {
        return (act[0], 1.);
    }
    let v = col.iter().zip(wt).map(|(x, w)| w * (x - m) * (x - m)).sum::<f64>() / sw * n_eff / (n_eff - 1.);
    (m, v.sqrt())
}

impl Ref {
    pub fn new(c: &Case) -> Ref {
        let n = c.n();
        let k = c.k();
        let mut x = Mat::zeros(n, k);
        let o = c.icpt as usize;
        for i in 0..n {
            if c.icpt {
                x.set(i, 0, 1.);
            }
            for j in 0..c.p {
                x.set(i, j + o, c.x[i][j]);
            }
        }
        let w: Vec<f64> = (0..n).map(|i| c.w(i)).collect();
        let f: Vec<f64> = (0..n).map(|i| c.f(i)).collect();
        let wt: Vec<f64> = (0..n).map(|i| w[i] * f[i]).collect();
        let v1: f64 = wt.iter().sum();
        let v2: f64 = (0..n).map(|i| f[i] * w[i] * w[i]).sum();
        let n_eff = v1 * v1 / v2;
        let mut sd = vec![1.; k];
        let mut mean = vec![0.; k];
        if c.std {
            for j in 0..c.p {
                let (m, s) = col_moments(&x.col(j + o), &wt, n_eff);
                sd[j + o] = s;
                if c.icpt {
                    mean[j + o] = m;
                }
            }
        }
        let (mut u_mu, mut u_om, mut u_v, mut u_de) = (1., 1., 1., 1.);
        if c.fam.positive() || c.fam.is_lin() {
            let m = (0..n).map(|i| wt[i] * c.y[i].abs()).sum::<f64>() / v1;
            if !(0.01..=100.).contains(&m) && m > 0. && m.is_finite() {
                u_mu = 10f64.powf(m.log10().round());
                if c.fam.is_lin() {
                    u_om = u_mu;
                } else {
                    u_v = c.fam.var(u_mu);
                    let w = c.fam.link(u_mu);
                    u_de = c.fam.dnat(w).abs();
                    if c.fam.domain() != 0 {
                        u_om = w.abs();
                    }
                }
            }
        }
        Ref {
            u_mu,
            u_om,
            u_v,
            u_de,
            fam: c.fam,
            n,
            k,
            icpt: c.icpt,
            std: c.std,
            x,
            y: c.y.clone(),
            off: (0..n).map(|i| c.o(i)).collect(),
            w,
            f,
            wt,
            has_w: c.vw.is_some(),
            sd,
            mean,
            l1: c.l1,
            l2: c.l2,
            eps: c.eps(),
        }
    }
    pub fn reg_any(&self) -> bool {
        self.l1 > 0. || self.l2 > 0.
    }
    pub fn n_obs(&self) -> f64 {
        self.f.iter().sum()
    }
    pub fn sum_w(&self) -> f64 {
        self.wt.iter().sum()
    }
    pub fn n_eff(&self) -> f64 {
        let v2: f64 = (0..self.n).map(|i| self.f[i] * self.w[i] * self.w[i]).sum();
        self.sum_w() * self.sum_w() / v2
    }
    /// external -> internal parameters
    pub fn to_int(&self, b: &[f64]) -> Vec<f64> {
        let mut o: Vec<f64> = (0..self.k).map(|j| b[j] * self.sd[j]).collect();
        if self.icpt {
            o[0] += (1..self.k).map(|j| b[j] * self.mean[j]).sum::<f64>();
        }
        o
    }
    pub fn to_ext(&self, b: &[f64]) -> Vec<f64> {
        let mut o: Vec<f64> = (0..self.k).map(|j| b[j] / self.sd[j]).collect();
        if self.icpt {
            o[0] -= (1..self.k).map(|j| o[j] * self.mean[j]).sum::<f64>();
        }
        o
    }
    /// internal design matrix
    pub fn x_int(&self) -> Mat {
        let mut m = self.x.clone();
        for i in 0..self.n {
            for j in (self.icpt as usize)..self.k {
                m.set(i, j, (m.at(i, j) - self.mean[j]) / self.sd[j]);
            }
        }
        m
    }
    pub fn at(&self, b: &[f64]) -> At {
        let om: Vec<f64> = (0..self.n).map(|i| dot(self.x.row(i), b) + self.off[i]).collect();
        let mu: Vec<f64> = om.iter().map(|w| self.fam.mean(*w)).collect();
        let v = om.iter().map(|w| self.fam.var_w(*w)).collect();
        let de = om.iter().map(|w| self.fam.dnat(*w)).collect();
        let e = (0..self.n).map(|i| self.y[i] - mu[i]).collect();
        At { b: b.to_vec(), om, mu, v, de, e }
    }
    pub fn in_domain(&self, a: &At) -> bool {
        a.om.iter().zip(&self.wt).all(|(w, t)| *t == 0. || self.fam.in_domain(*w)) && a.om.iter().all(|w| w.is_finite())
    }
    pub fn ll_data(&self, a: &At) -> f64 {
        (0..self.n).filter(|i| self.wt[*i] != 0.).map(|i| self.wt[i] * self.fam.ll(self.y[i], a.om[i])).sum()
    }
    /// magnitude of the likelihood sum, for rounding tolerances
    pub fn ll_mag(&self, a: &At) -> f64 {
        (0..self.n)
            .filter(|i| self.wt[*i] != 0.)
            .map(|i| {
                let e = self.fam.nat(a.om[i]);
                let lin = (self.y[i] * e).abs();
                let l = self.fam.ll(self.y[i], a.om[i]).abs();
                // sensitivity to rounding in the linear predictor
                let mx = self.lin_mag(i, &a.b);
                let sens = (a.de[i] * a.e[i]).abs() * mx;
                self.wt[i] * (2. * lin + l + sens)
            })
            .sum()
    }
    /// magnitude of the terms summed to a linear predictor in either basis
    pub fn lin_mag(&self, i: usize, b: &[f64]) -> f64 {
        self.off[i].abs() + (0..self.k).map(|j| (self.x.at(i, j).abs() + self.mean[j].abs()) * b[j].abs()).sum::<f64>()
    }
    pub fn pen(&self, b: &[f64]) -> f64 {
        (self.icpt as usize..self.k)
            .map(|j| {
                let s = b[j] * self.sd[j];
                0.5 * self.l2 * s * s + self.l1 * s.abs()
            })
            .sum()
    }
    pub fn ll(&self, a: &At) -> f64 {
        self.ll_data(a) - self.pen(&a.b)
    }
    pub fn score_data(&self, a: &At) -> Vec<f64> {
        let mut g = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] != 0. {
                let s = self.wt[i] * a.de[i] * a.e[i];
                for j in 0..self.k {
                    g[j] += s * self.x.at(i, j);
                }
            }
        }
        g
    }
    /// magnitude of the summands of the score, for rounding tolerances
    pub fn score_mag(&self, a: &At) -> Vec<f64> {
        let mut g = vec![0.; self.k];
        for i in 0..self.n {
            let mx: f64 = (0..self.k).map(|j| (self.x.at(i, j) * a.b[j]).abs()).sum::<f64>() + self.off[i].abs();
            let dmu = (a.v[i] * a.de[i]).abs();
            let s = self.wt[i] * a.de[i].abs() * (self.y[i].abs() + a.mu[i].abs() + dmu * mx);
            for j in 0..self.k {
                g[j] += s * (self.x.at(i, j).abs() + self.mean[j].abs());
            }
        }
        for j in 0..self.k {
            g[j] += self.sd[j] * (self.l2 * (self.sd[j] * a.b[j]).abs() + self.l1);
        }
        g
    }
    pub fn score(&self, a: &At) -> Vec<f64> {
        let mut g = self.score_data(a);
        for j in (self.icpt as usize)..self.k {
            let s = self.sd[j];
            let sg = if a.b[j] == 0. { 0. } else { a.b[j].signum() };
            g[j] -= self.l2 * s * s * a.b[j] + self.l1 * s * sg;
        }
        g
    }
    pub fn fisher_data(&self, a: &At) -> Mat {
        self.gram(&self.x, a)
    }
    pub fn gram(&self, x: &Mat, a: &At) -> Mat {
        let mut m = Mat::zeros(self.k, self.k);
        for i in 0..self.n {
            if self.wt[i] != 0. {
                let s = self.wt[i] * a.v[i] * a.de[i] * a.de[i];
                for j in 0..self.k {
                    for l in 0..self.k {
                        m.add(j, l, s * x.at(i, j) * x.at(i, l));
                    }
                }
            }
        }
        m
    }
    /// Fisher information including the (L2) curvature of the penalty
    pub fn fisher(&self, a: &At) -> Mat {
        let mut m = self.fisher_data(a);
        for j in (self.icpt as usize)..self.k {
            m.add(j, j, self.l2 * self.sd[j] * self.sd[j]);
        }
        m
    }
    pub fn fisher_int(&self, a: &At) -> Mat {
        let mut m = self.gram(&self.x_int(), a);
        for j in (self.icpt as usize)..self.k {
            m.add(j, j, self.l2);
        }
        m
    }
    /// gradient of the penalised likelihood w.r.t. internal parameters
    pub fn score_int_data(&self, a: &At) -> Vec<f64> {
        let x = self.x_int();
        let mut g = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] != 0. {
                let s = self.wt[i] * a.de[i] * a.e[i];
                for j in 0..self.k {
                    g[j] += s * x.at(i, j);
                }
            }
        }
        g
    }
    /// Does the observation have a defined likelihood? Only those with zero frequency may not.
    pub fn live(&self, a: &At, i: usize) -> bool {
        self.fam.in_domain(a.om[i])
    }
    pub fn dev_terms(&self, a: &At) -> Vec<f64> {
        (0..self.n).map(|i| self.w[i] * self.fam.unit_dev_w(self.y[i], a.om[i])).collect()
    }
    pub fn deviance(&self, a: &At) -> f64 {
        self.dev_terms(a).iter().zip(&self.f).filter(|(_, f)| **f != 0.).map(|(d, f)| d * f).sum()
    }
    pub fn sat_total(&self) -> f64 {
        (0..self.n).filter(|i| self.wt[*i] != 0.).map(|i| self.wt[i] * self.fam.sat(self.y[i])).sum()
    }
    pub fn sat_mag(&self) -> f64 {
        (0..self.n).map(|i| self.wt[i] * self.fam.sat(self.y[i]).abs()).sum()
    }
    /// Likelihood of the null model: all coefficients zero except a free intercept (if any).
    /// Returns (likelihood, intercept).
    pub fn null(&self) -> Option<(f64, f64)> {
        let eval = |b0: f64| -> f64 {
            (0..self.n).filter(|i| self.wt[*i] != 0.).map(|i| self.wt[i] * self.fam.ll(self.y[i], b0 + self.off[i])).sum()
        };
        if !self.icpt {
            let v = eval(0.);
            return if v.is_finite() { Some((v, 0.)) } else { None };
        }
        // one-dimensional maximisation by safeguarded Newton on the score
        let ybar: f64 = (0..self.n).map(|i| self.wt[i] * self.y[i]).sum::<f64>() / self.sum_w();
        let mut b = self.fam.link(ybar);
        if !b.is_finite() {
            return None;
        }
        // make it feasible with offsets
        match self.fam.domain() {
            -1 => {
                let m = self.off.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                if b + m >= 0. {
                    b = -m - 0.5 * self.u_om;
                }
            }
            1 => {
                let m = self.off.iter().cloned().fold(f64::INFINITY, f64::min);
                if b + m <= 0. {
                    b = -m + 0.5 * self.u_om;
                }
            }
            _ => {
                let mo: f64 = (0..self.n).map(|i| self.wt[i] * self.off[i]).sum::<f64>() / self.sum_w();
                b -= mo;
            }
        }
        let mut v = eval(b);
        for _ in 0..200 {
            let (mut g, mut h) = (0., 0.);
            for i in 0..self.n {
                let w = b + self.off[i];
                let de = self.fam.dnat(w);
                g += self.wt[i] * de * (self.y[i] - self.fam.mean(w));
                h += self.wt[i] * de * de * self.fam.var_w(w);
            }
            if !(h > 0.) || !g.is_finite() {
                return None;
            }
            let mut st = g / h;
            let mut ok = false;
            for _ in 0..60 {
                let nv = eval(b + st);
                if nv.is_finite() && nv >= v {
                    ok = true;
                    v = nv;
                    b += st;
                    break;
                }
                st *= 0.5;
            }
            if !ok || st.abs() <= 1e-14 * (self.u_om.min(1.) + b.abs()) {
                break;
            }
        }
        if v.is_finite() { Some((v, b)) } else { None }
    }
    pub fn dispersion(&self, a: &At) -> f64 {
        if !self.fam.free_dispersion() {
            return 1.;
        }
        let ne = self.n_eff();
        self.deviance(a) / ((1. - self.k as f64 / ne) * self.sum_w())
    }
    /// Fit by Fisher scoring with backtracking in the internal basis (L2 only). Returns external
    /// coefficients, if a stationary point is reached.
    pub fn fit(&self) -> Option<Vec<f64>> {
        let xi = self.x_int();
        let mut bi = vec![0.; self.k];
        // feasible start
        let ybar: f64 = (0..self.n).map(|i| self.wt[i] * self.y[i]).sum::<f64>() / self.sum_w();
        let (b0, _) = match self.null() {
            Some((_, b)) => (b, 0.),
            None => (self.fam.link(ybar), 0.),
        };
        if self.icpt {
            bi[0] = b0;
        } else {
            // least squares on the link scale of the mean
            let t: Vec<f64> = (0..self.n).map(|i| self.fam.link(0.5 * (self.y[i] + ybar)) - self.off[i]).collect();
            let mut m = Mat::zeros(self.k, self.k);
            let mut r = vec![0.; self.k];
            for i in 0..self.n {
                for j in 0..self.k {
                    r[j] += self.wt[i] * xi.at(i, j) * t[i];
                    for l in 0..self.k {
                        m.add(j, l, self.wt[i] * xi.at(i, j) * xi.at(i, l));
                    }
                }
            }
            let tr: f64 = (0..self.k).map(|j| m.at(j, j)).sum();
            for j in 0..self.k {
                m.add(j, j, 1e-9 * tr);
            }
            let z = m.solve(&r)?;
            let ok = |b: &[f64]| self.in_domain(&self.at(&self.to_ext(b)));
            if ok(&z) {
                bi = z;
            } else if self.fam.domain() != 0 {
                // perceptron for a feasible direction, which may be scaled up
                let d = self.fam.domain() as f64;
                let mut z = vec![0.; self.k];
                for _ in 0..400 {
                    let mut moved = false;
                    for i in (0..self.n).filter(|i| self.wt[*i] != 0.) {
                        let nrm = dot(xi.row(i), xi.row(i)).sqrt();
                        if nrm > 0. && d * dot(xi.row(i), &z) < 0.1 * nrm {
                            for j in 0..self.k {
                                z[j] += d * xi.at(i, j) / nrm;
                            }
                            moved = true;
                        }
                    }
                    if !moved {
                        break;
                    }
                }
                for s in [1e-2, 1., 1e2] {
                    let y: Vec<f64> = z.iter().map(|v| v * s).collect();
                    if ok(&y) {
                        bi = y;
                        break;
                    }
                }
            }
        }
        let mut a = self.at(&self.to_ext(&bi));
        if !self.in_domain(&a) {
            return None;
        }
        let mut v = self.ll(&a);
        if !v.is_finite() {
            return None;
        }
        for it in 0..300 {
            let mut g = self.score_int_data(&a);
            for j in (self.icpt as usize)..self.k {
                g[j] -= self.l2 * bi[j];
            }
            let h = self.fisher_int(&a);
            let st = h.solve(&g)?;
            let dec = dot(&g, &st);
            if !dec.is_finite() {
                return None;
            }
            if dec.abs() <= 1e-26 * (1. + self.ll_mag(&a)) && it > 0 {
                return Some(self.to_ext(&bi));
            }
            let mut t = 1.;
            let mut moved = false;
            for _ in 0..50 {
                let nb: Vec<f64> = (0..self.k).map(|j| bi[j] + t * st[j]).collect();
                let na = self.at(&self.to_ext(&nb));
                if self.in_domain(&na) {
                    let nv = self.ll(&na);
                    if nv.is_finite() && nv >= v - 1e-14 * self.ll_mag(&na) {
                        bi = nb;
                        a = na;
                        v = nv;
                        moved = true;
                        break;
                    }
                }
                t *= 0.5;
            }
            if !moved || (it > 30 && dec < 1e-18 * (1. + self.ll_mag(&a))) {
                return if dec < 1e-12 * (1. + self.ll_mag(&a)) { Some(self.to_ext(&bi)) } else { None };
            }
        }
        None
    }
    /// Gradient of the smooth part (likelihood and L2) in the internal basis, and its rounding
    /// magnitude.
    pub fn grad_int(&self, a: &At) -> (Vec<f64>, Vec<f64>) {
        let bi = self.to_int(&a.b);
        let xi = self.x_int();
        let mut g = self.score_int_data(a);
        let mut m = vec![0.; self.k];
        for i in 0..self.n {
            if self.wt[i] != 0. {
                let s = self.wt[i] * a.de[i].abs() * (self.y[i].abs() + a.mu[i].abs() + (a.v[i] * a.de[i]).abs() * self.lin_mag(i, &a.b));
                for j in 0..self.k {
                    m[j] += s * xi.at(i, j).abs();
                }
            }
        }
        for j in (self.icpt as usize)..self.k {
            g[j] -= self.l2 * bi[j];
            m[j] += self.l2 * bi[j].abs();
        }
        (g, m)
    }
    /// Violation of the subgradient conditions per internal parameter.
    pub fn kkt(&self, bi: &[f64], g: &[f64], zero: f64) -> Vec<f64> {
        (0..self.k)
            .map(|j| {
                if j < self.icpt as usize {
                    g[j].abs()
                } else if bi[j].abs() <= zero {
                    (g[j].abs() - self.l1).max(0.)
                } else {
                    (g[j] - self.l1 * bi[j].signum()).abs()
                }
            })
            .collect()
    }
    /// Maximise the likelihood with L1 and L2 penalties by a proximal Newton method. Returns
    /// internal coefficients with exact zeros.
    pub fn fit_l1(&self) -> Option<Vec<f64>> {
        let o = self.icpt as usize;
        let mut bi = vec![0.; self.k];
        if self.icpt {
            bi[0] = match self.null() {
                Some((_, b)) => b,
                None => return None,
            };
        }
        let mut a = self.at(&self.to_ext(&bi));
        if !self.in_domain(&a) || !self.ll(&a).is_finite() {
            let b = self.fit()?;
            bi = self.to_int(&b);
            a = self.at(&b);
        }
        let mut v = self.ll(&a);
        if !v.is_finite() {
            return None;
        }
        let mut stall = 0;
        for _ in 0..200 {
            let (g, m) = self.grad_int(&a);
            if g.iter().any(|x| !x.is_finite()) {
                return None;
            }
            let kk = self.kkt(&bi, &g, 0.);
            if (0..self.k).all(|j| kk[j] <= 1e-13 * (m[j] + self.l1 + 1e-3)) {
                return Some(bi);
            }
            let h = self.fisher_int(&a);
            // coordinate descent on the quadratic model
            let mut d = vec![0.; self.k];
            for _ in 0..20000 {
                let mut ch = 0f64;
                for j in 0..self.k {
                    let hj = h.at(j, j);
                    if !(hj > 0.) {
                        return None;
                    }
                    let r = g[j] - (0..self.k).map(|l| h.at(j, l) * d[l]).sum::<f64>() + hj * d[j];
                    let nd = if j < o {
                        r / hj
                    } else {
                        let z = r + hj * bi[j];
                        z.signum() * (z.abs() - self.l1).max(0.) / hj - bi[j]
                    };
                    ch = ch.max((nd - d[j]).abs() * hj.sqrt());
                    d[j] = nd;
                }
                if ch <= 1e-16 * (1. + maxabs(&d)) {
                    break;
                }
            }
            let mut t = 1.;
            let mut moved = false;
            for _ in 0..50 {
                let nb: Vec<f64> = (0..self.k).map(|j| if t == 1. && bi[j] + d[j] == 0. { 0. } else { bi[j] + t * d[j] }).collect();
                let na = self.at(&self.to_ext(&nb));
                if self.in_domain(&na) {
                    let nv = self.ll(&na);
                    if nv.is_finite() && nv >= v - 1e-15 * self.ll_mag(&na) {
                        if nv <= v + 1e-15 * self.ll_mag(&na) {
                            stall += 1;
                        }
                        bi = nb;
                        a = na;
                        v = nv;
                        moved = true;
                        break;
                    }
                }
                t *= 0.5;
            }
            if !moved || stall > 4 {
                let (g, m) = self.grad_int(&a);
                let kk = self.kkt(&bi, &g, 0.);
                return if (0..self.k).all(|j| kk[j] <= 1e-9 * (m[j] + self.l1 + 1e-3)) { Some(bi) } else { None };
            }
        }
        None
    }
    /// Half the squared Newton decrement of the penalised likelihood (L2): an upper-bound style
    /// estimate of how far the likelihood at `a` is below its maximum.
    pub fn decrement(&self, a: &At) -> Option<f64> {
        let bi = self.to_int(&a.b);
        let mut g = self.score_int_data(a);
        for j in (self.icpt as usize)..self.k {
            g[j] -= self.l2 * bi[j];
        }
        let h = self.fisher_int(a);
        let st = h.solve(&g)?;
        Some(0.5 * dot(&g, &st))
    }
}
