//! The properties. Each is a generator plus a check against an explicit oracle.
use crate::api::*;
use crate::case::Case;
use crate::driver::*;
use crate::linalg::*;
use crate::refm::*;

pub mod conv;
pub mod hist;
pub mod info;
pub mod law;
pub mod meta;
pub mod mle;
pub mod stats;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(mle::props());
    v.extend(conv::props());
    v.extend(info::props());
    v.extend(law::props());
    v.extend(hist::props());
    v.extend(stats::props());
    v.extend(meta::props());
    v
}

pub const SKIP_ERR: &str = "fit returned an error";

pub fn err_reason(e: &LibErr) -> &'static str {
    match e {
        LibErr::BadInput(_) => "library error: BadInput",
        LibErr::InvalidY(_) => "library error: InvalidY",
        LibErr::Build(_) => "library error: BuildError",
        LibErr::Linalg(_) => "library error: LinalgError",
        LibErr::MaxIter { .. } => "library error: MaxIter",
    }
}

pub fn lift<T>(r: Result<T, LibErr>) -> Result<T, Stop> {
    r.map_err(|e| Stop::Skip(err_reason(&e)))
}

/// Fit the case and run `k`, skipping when the library reports an error.
pub fn fitted(c: &Case, cx: &mut Cx, k: impl FnOnce(&dyn FitApi, &Ref, &At, &mut Cx) -> R) -> R {
    let r = Ref::new(c);
    lift(with_fit(c, |f| {
        let b = f.result();
        if b.iter().any(|x| !x.is_finite()) {
            return skip("non-finite coefficients");
        }
        let a = r.at(&b);
        k(f, &r, &a, cx)
    }))?
}

/// How sharply the problem is determined: condition numbers of the penalised Fisher information in
/// the internal basis and (scaled to unit diagonal) in the external basis.
pub struct Cond {
    pub int: f64,
    pub ext: f64,
}
pub fn cond(r: &Ref, a: &At) -> Cond {
    Cond { int: r.fisher_int(a).cond_scaled(), ext: r.fisher(a).cond_scaled() }
}

/// The predicted variances are far enough from zero and infinity to be representable.
pub fn calm(r: &Ref, a: &At) -> bool {
    let lo = 1e-7f64.max(1e4 * r.eps);
    (0..r.n).all(|i| {
        let v = a.v[i] / r.u_v;
        let vv = v * (a.de[i] / r.u_de).powi(2);
        vv.is_finite() && vv > lo && vv < 1e9 && v > lo && a.mu[i].abs() <= 1e6 * r.u_mu
    })
}

/// Problems on which the numerical comparison is meaningful.
pub fn sane(r: &Ref, a: &At) -> Result<Cond, Stop> {
    if !r.in_domain(a) {
        return skip("fitted linear predictor outside the link's domain");
    }
    if a.mu.iter().any(|m| !m.is_finite() || m.abs() > 1e6 * r.u_mu) {
        return skip("extreme fitted values");
    }
    if !calm(r, a) {
        return skip("near-degenerate fitted variance");
    }
    let cd = cond(r, a);
    let lim = if r.eps > 1e-10 { 1e4 } else { 1e8 };
    if !(cd.int < lim) || !(cd.ext < lim * 1e2) {
        return skip("ill-conditioned design");
    }
    Ok(cd)
}

/// Perturbed copies of the reference model at the library's solution. The spread of a reference
/// quantity over them measures how sensitive it is to rounding, which sets the tolerance.
pub struct Jit {
    v: Vec<(Ref, At)>,
    eps: f64,
}
const JIT_H: f64 = 64.;
const JIT_K: f64 = 50.;

impl Jit {
    pub fn new(c: &Case, r: &Ref, b: &[f64]) -> Jit {
        let h = JIT_H * r.eps;
        let mut g = crate::rng::Rng::new(0x5eed ^ (c.n() as u64) << 8 ^ b.iter().fold(0u64, |s, x| s.rotate_left(5) ^ x.to_bits()));
        let v = (0..4)
            .map(|_| {
                let mut q = Ref::new(c);
                for i in 0..q.n {
                    for j in (q.icpt as usize)..q.k {
                        let s = q.x.at(i, j).abs() + q.mean[j].abs();
                        q.x.add(i, j, h * s * g.sym(1.));
                    }
                }
                for j in 0..q.k {
                    q.mean[j] *= 1. + h * g.sym(1.);
                    q.sd[j] *= 1. + h * g.sym(1.);
                }
                let mut a = At { b: b.iter().map(|x| x * (1. + h * g.sym(1.))).collect(), om: vec![], mu: vec![], v: vec![], de: vec![], e: vec![] };
                for i in 0..r.n {
                    let mx: f64 = r.off[i].abs()
                        + (0..r.k).map(|j| (r.x.at(i, j).abs() + r.mean[j].abs()) * b[j].abs()).sum::<f64>();
                    let mut w = dot(r.x.row(i), b) + r.off[i] + h * mx * g.sym(1.);
                    let w0 = dot(r.x.row(i), b) + r.off[i];
                    if !r.fam.in_domain(w) && r.fam.in_domain(w0) {
                        w = w0;
                    }
                    let mu = r.fam.mean(w) * (1. + h * g.sym(0.5));
                    a.om.push(w);
                    a.mu.push(mu);
                    // mu (N - mu) / N cancels near the ends of its range
                    let ends = if r.fam.is_bin() || r.fam.is_logistic() { h * mu.abs() * g.sym(1.) } else { 0. };
                    a.v.push(r.fam.var_w(w) * (1. + h * g.sym(1.)) + ends);
                    a.de.push(r.fam.dnat(w) * (1. + h * g.sym(1.)));
                    a.e.push(r.y[i] - mu + h * g.sym(0.5) * r.y[i].abs());
                }
                (q, a)
            })
            .collect();
        Jit { v, eps: r.eps }
    }
    /// Tolerances for a quantity: K times its spread plus a little of its overall magnitude.
    pub fn tol(&self, base: &[f64], f: impl Fn(&Ref, &At) -> Vec<f64>) -> Vec<f64> {
        let mut d = vec![0f64; base.len()];
        for (q, a) in &self.v {
            let p = f(q, a);
            for i in 0..base.len() {
                let e = (p[i] - base[i]).abs();
                d[i] = if e.is_nan() { f64::NAN } else { d[i].max(e) };
            }
        }
        let m = maxabs(&d);
        let s = maxabs(base);
        d.iter().map(|x| JIT_K * (x + 0.02 * m) + 200. * self.eps * s + 1e-300).collect()
    }
}

/// Compare a library vector with a reference quantity at the rounding-derived tolerance.
pub fn agree(cx: &mut Cx, what: &'static str, got: &[f64], r: &Ref, a: &At, j: &Jit, f: impl Fn(&Ref, &At) -> Vec<f64>) -> R {
    let want = f(r, a);
    if want.iter().any(|x| !x.is_finite()) {
        return skip("reference value not finite");
    }
    let tol = j.tol(&want, &f);
    if tol.iter().any(|t| !t.is_finite()) {
        return skip("reference value too sensitive");
    }
    cx.close_v(what, got, &want, |i| tol[i])
}

/// As `agree`, with an extra absolute tolerance per entry.
pub fn agree_x(cx: &mut Cx, what: &'static str, got: &[f64], r: &Ref, a: &At, j: &Jit, extra: &[f64], f: impl Fn(&Ref, &At) -> Vec<f64>) -> R {
    let want = f(r, a);
    if want.iter().any(|x| !x.is_finite()) {
        return skip("reference value not finite");
    }
    let tol = j.tol(&want, &f);
    if tol.iter().any(|t| !t.is_finite()) {
        return skip("reference value too sensitive");
    }
    cx.close_v(what, got, &want, |i| tol[i] + extra[i])
}

/// Fit, skip ill-posed cases, and hand over reference, perturbed copies and conditioning.
pub fn base(c: &Case, cx: &mut Cx, k: impl FnOnce(&dyn FitApi, &Ref, &At, &Jit, &Cond, &mut Cx) -> R) -> R {
    fitted(c, cx, |f, r, a, cx| {
        let cd = sane(r, a)?;
        let j = Jit::new(c, r, &a.b);
        k(f, r, a, &j, &cd, cx)
    })
}
