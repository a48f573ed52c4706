//! A generated regression problem, serialisable so that a failing one is a replay file.
use crate::family::Fam;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub fam: Fam,
    /// run the library in single precision
    pub f32: bool,
    pub icpt: bool,
    pub std: bool,
    pub p: usize,
    /// n rows of p covariates
    pub x: Vec<Vec<f64>>,
    pub y: Vec<f64>,
    /// which response element type is handed to the builder (see api::y types)
    pub ytype: u8,
    pub off: Option<Vec<f64>>,
    pub vw: Option<Vec<f64>>,
    pub fw: Option<Vec<u32>>,
    pub l1: f64,
    pub l2: f64,
    pub tol: Option<f64>,
    pub max_iter: Option<usize>,
    /// memory layout of the design matrix view and the response view
    pub layout: u8,
    /// scenario selector and free numbers, interpreted by each property
    pub kind: u32,
    pub aux: Vec<f64>,
}

impl Case {
    pub fn n(&self) -> usize {
        self.y.len()
    }
    pub fn k(&self) -> usize {
        self.p + self.icpt as usize
    }
    pub fn w(&self, i: usize) -> f64 {
        self.vw.as_ref().map_or(1., |w| w[i])
    }
    pub fn f(&self, i: usize) -> f64 {
        self.fw.as_ref().map_or(1., |w| w[i] as f64)
    }
    pub fn o(&self, i: usize) -> f64 {
        self.off.as_ref().map_or(0., |w| w[i])
    }
    pub fn weighted(&self) -> bool {
        self.vw.is_some() || self.fw.is_some()
    }
    pub fn reg(&self) -> bool {
        self.l1 > 0. || self.l2 > 0.
    }
    pub fn aux(&self, i: usize) -> f64 {
        if self.aux.is_empty() { 0. } else { self.aux[i % self.aux.len()] }
    }
    pub fn eps(&self) -> f64 {
        if self.f32 { f32::EPSILON as f64 } else { f64::EPSILON }
    }
    /// Round every number to the precision the library is run in.
    pub fn quantize(&mut self) {
        if self.f32 {
            let q = |v: &mut f64| *v = *v as f32 as f64;
            self.x.iter_mut().flatten().for_each(q);
            self.y.iter_mut().for_each(q);
            self.off.iter_mut().flatten().for_each(q);
            self.vw.iter_mut().flatten().for_each(q);
            self.aux.iter_mut().for_each(q);
            q(&mut self.l1);
            q(&mut self.l2);
        }
    }
    pub fn drop_row(&self, i: usize) -> Case {
        let mut c = self.clone();
        c.x.remove(i);
        c.y.remove(i);
        if let Some(v) = &mut c.off {
            v.remove(i);
        }
        if let Some(v) = &mut c.vw {
            v.remove(i);
        }
        if let Some(v) = &mut c.fw {
            v.remove(i);
        }
        c
    }
    pub fn drop_col(&self, j: usize) -> Case {
        let mut c = self.clone();
        for r in &mut c.x {
            r.remove(j);
        }
        c.p -= 1;
        c
    }
    /// Rows reordered so that new row i is old row perm[i].
    pub fn permute_rows(&self, perm: &[usize]) -> Case {
        let mut c = self.clone();
        c.x = perm.iter().map(|&i| self.x[i].clone()).collect();
        c.y = perm.iter().map(|&i| self.y[i]).collect();
        c.off = self.off.as_ref().map(|v| perm.iter().map(|&i| v[i]).collect());
        c.vw = self.vw.as_ref().map(|v| perm.iter().map(|&i| v[i]).collect());
        c.fw = self.fw.as_ref().map(|v| perm.iter().map(|&i| v[i]).collect());
        c
    }
    pub fn permute_cols(&self, perm: &[usize]) -> Case {
        let mut c = self.clone();
        for r in &mut c.x {
            let o = r.clone();
            for (j, &k) in perm.iter().enumerate() {
                r[j] = o[k];
            }
        }
        c
    }
}

/// Candidate simplifications, most aggressive first. Used by the minimiser.
pub fn shrink(c: &Case) -> Vec<Case> {
    let mut v = Vec::new();
    let n = c.n();
    // drop blocks of rows, then single rows
    if n > 1 {
        let mut blk = n / 2;
        while blk >= 2 {
            let mut s = 0;
            while s < n {
                let keep: Vec<usize> = (0..n).filter(|i| *i < s || *i >= s + blk).collect();
                if !keep.is_empty() {
                    v.push(c.permute_rows(&keep));
                }
                s += blk;
            }
            blk /= 2;
        }
        for i in 0..n {
            v.push(c.drop_row(i));
        }
    }
    for j in 0..c.p {
        v.push(c.drop_col(j));
    }
    macro_rules! set {
        ($cond:expr, $c:ident, $b:block) => {
            if $cond {
                let mut $c = c.clone();
                $b;
                v.push($c);
            }
        };
    }
    set!(c.off.is_some(), d, { d.off = None });
    set!(c.vw.is_some(), d, { d.vw = None });
    set!(c.fw.is_some(), d, { d.fw = None });
    set!(c.f32, d, { d.f32 = false });
    set!(c.std, d, { d.std = false });
    set!(c.layout != 0, d, { d.layout = 0 });
    set!(c.ytype != 0, d, { d.ytype = 0 });
    set!(c.l1 != 0., d, { d.l1 = 0. });
    set!(c.l2 != 0., d, { d.l2 = 0. });
    set!(c.l1 != 0. && c.l1 != 1., d, { d.l1 = 1. });
    set!(c.l2 != 0. && c.l2 != 1., d, { d.l2 = 1. });
    set!(c.tol.is_some(), d, { d.tol = None });
    set!(c.max_iter.is_some(), d, { d.max_iter = None });
    set!(c.aux.len() > 1 && c.aux.iter().any(|a| *a != 0.), d, { d.aux.iter_mut().for_each(|a| *a = 0.) });
    // simpler numbers
    let simp = |x: f64| -> Vec<f64> {
        let mut o = vec![];
        for cand in [0., 1., x.round(), (x * 10.).round() / 10., (x * 100.).round() / 100.] {
            let shorter = format!("{cand}").len() < format!("{x}").len() || (cand.abs() < x.abs() && cand == cand.round());
            if cand != x && shorter && !o.contains(&cand) {
                o.push(cand);
            }
        }
        o
    };
    if n * (c.p + 1) <= 120 {
        for i in 0..n {
            for s in simp(c.y[i]) {
                set!(c.fam.valid_y(s), d, { d.y[i] = s });
            }
            for j in 0..c.p {
                for s in simp(c.x[i][j]) {
                    set!(true, d, { d.x[i][j] = s });
                }
            }
            if let Some(o) = &c.off {
                for s in simp(o[i]) {
                    set!(true, d, { d.off.as_mut().unwrap()[i] = s });
                }
            }
            if let Some(o) = &c.vw {
                for s in simp(o[i]) {
                    set!(s > 0., d, { d.vw.as_mut().unwrap()[i] = s });
                }
            }
            if let Some(o) = &c.fw {
                if o[i] > 1 {
                    set!(true, d, { d.fw.as_mut().unwrap()[i] = 1 });
                    set!(o[i] > 2, d, { d.fw.as_mut().unwrap()[i] = 2 });
                }
            }
        }
        for i in 0..c.aux.len() {
            for s in simp(c.aux[i]) {
                set!(true, d, { d.aux[i] = s });
            }
        }
    }
    v
}
