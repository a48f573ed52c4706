//! Metamorphic and differential properties: fits of the library on related problems against each
//! other. C04 standardisation, C05 equivariance, C06 frequency weights, C07 variance weights,
//! C08 offsets, C20 precision, C21 custom links, C22 coinciding families.
use super::*;
use crate::family::{AFF_A, AFF_B, Fam};
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;

/// A quantity of a fit that is compared between problems.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Q {
    Coef,
    Like,
    Mu,
    FisherAt,
    ScoreAt,
    LrAt,
    ScoreTestAt,
    WaldAt,
    S(St),
}
use Q::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Shape {
    Scalar,
    Param,
    ParamScore,
    ParamWise,
    Cov,
    Info,
    Row,
    Hat,
    RowParam,
    RowCov,
}

pub fn shape(q: Q) -> Shape {
    use Shape::*;
    match q {
        Q::Coef => Param,
        Q::Like | LrAt | ScoreTestAt | WaldAt => Scalar,
        Mu => Row,
        FisherAt => Info,
        ScoreAt => ParamScore,
        S(s) => match s {
            St::Cov => Cov,
            St::Hat => Hat,
            St::InflCoef | St::LooExact => RowParam,
            St::ResidPart => RowCov,
            St::WaldZ | St::PWald | St::PExact => ParamWise,
            St::Cooks | St::Leverage | St::ResidDev | St::ResidDevStd | St::ResidPear | St::ResidPearStd
            | St::ResidResp | St::ResidStudent | St::ResidWork | St::ResidQuantile | St::Predict => Row,
            _ => Scalar,
        },
    }
}

pub fn qname(q: Q) -> &'static str {
    match q {
        Coef => "coefficients",
        Like => "likelihood",
        Mu => "fitted values",
        FisherAt => "Fisher information",
        ScoreAt => "score",
        LrAt => "likelihood ratio against parameters",
        ScoreTestAt => "score test against parameters",
        WaldAt => "Wald test against parameters",
        S(s) => match s {
            St::Aic => "AIC",
            St::Bic => "BIC",
            St::Cooks => "Cook's distances",
            St::Cov => "covariance",
            St::Deviance => "deviance",
            St::Dispersion => "dispersion",
            St::Hat => "hat matrix",
            St::InflCoef => "influence coefficients",
            St::Leverage => "leverages",
            St::LooExact => "exact leave-one-out coefficients",
            St::LrTest => "likelihood ratio",
            St::Ndf => "degrees of freedom",
            St::NullLike => "null likelihood",
            St::ResidDev => "deviance residuals",
            St::ResidDevStd => "standardised deviance residuals",
            St::ResidPart => "partial residuals",
            St::ResidPear => "Pearson residuals",
            St::ResidPearStd => "standardised Pearson residuals",
            St::ResidResp => "response residuals",
            St::ResidStudent => "studentised residuals",
            St::ResidWork => "working residuals",
            St::ResidQuantile => "quantile residuals",
            St::ScoreTest => "score test",
            St::TestNdf => "test degrees of freedom",
            St::WaldTest => "Wald test",
            St::WaldZ => "Wald z",
            St::PLr => "likelihood-ratio p-value",
            St::PWald => "Wald p-values",
            St::PExact => "drop-one p-values",
            St::RSq => "R squared",
            St::Rss => "residual sum of squares",
            _ => "statistic",
        },
    }
}

pub const SCALARS: &[Q] = &[
    Like, LrAt, ScoreTestAt, WaldAt, S(St::Aic), S(St::Bic), S(St::Deviance), S(St::Dispersion), S(St::LrTest), S(St::Ndf),
    S(St::NullLike), S(St::ScoreTest), S(St::TestNdf), S(St::WaldTest), S(St::PLr), S(St::RSq), S(St::Rss),
];
pub const ALLQ: &[Q] = &[
    Coef, Like, Mu, FisherAt, ScoreAt, LrAt, ScoreTestAt, WaldAt, S(St::Aic), S(St::Bic), S(St::Cooks), S(St::Cov),
    S(St::Deviance), S(St::Dispersion), S(St::Hat), S(St::InflCoef), S(St::Leverage), S(St::LrTest), S(St::Ndf),
    S(St::NullLike), S(St::ResidDev), S(St::ResidDevStd), S(St::ResidPart), S(St::ResidPear), S(St::ResidPearStd),
    S(St::ResidResp), S(St::ResidStudent), S(St::ResidWork), S(St::ResidQuantile), S(St::ScoreTest), S(St::TestNdf),
    S(St::WaldTest), S(St::WaldZ), S(St::PLr), S(St::PWald), S(St::RSq), S(St::Rss),
];

fn snap(f: &dyn FitApi, c: &Case, qs: &[Q], probe: &[f64]) -> Vec<Val> {
    qs.iter()
        .map(|q| match q {
            Coef => Val::V(f.result()),
            Like => Val::S(f.model_like()),
            Mu => Val::V(f.predict(&Mat::from_rows(&c.x, c.p), c.off.as_deref(), 0)),
            FisherAt => f.at(St::Fisher, probe),
            ScoreAt => f.at(St::Score, probe),
            LrAt => f.at(St::LrAgainst, probe),
            ScoreTestAt => f.at(St::ScoreAgainst, probe),
            WaldAt => f.at(St::WaldAgainst, probe),
            // slow for tiny dispersions
            S(St::ResidQuantile) if !c.fam.is_lin() && matches!(f.stat(St::Dispersion, &Args::default()), Val::S(x) if !(x >= 1e-7)) => Val::Na,
            S(s) => f.stat(*s, &Args::default()),
        })
        .collect()
}

/// The fit of a problem, with a tolerance for each of its quantities measured by re-fitting with
/// slightly perturbed offsets.
pub struct Calib {
    pub r: Ref,
    pub a: At,
    pub cd: Cond,
    pub probe: Vec<f64>,
    pub vals: Vec<Val>,
    pub tol: Vec<Vec<f64>>,
    /// rows whose studentised residual is well defined
    pub stud_ok: Vec<bool>,
    /// rows whose removal leaves a regular problem, and parameters whose removal does
    pub loo_ok: Vec<bool>,
    pub drop_ok: Vec<bool>,
    /// relative floor of the tolerances, and a factor for the conditioning of the related problem
    pub fl: f64,
    pub boost: std::cell::Cell<f64>,
    /// the null model has a likelihood
    pub null_ok: bool,
    pub l1: bool,
}
/// Does the reference find a regular maximum?
fn regular(c: &Case) -> bool {
    let r = Ref::new(c);
    let Some(b) = r.fit() else { return false };
    let a = r.at(&b);
    let vmin = if c.f32 { 1e-2 } else { 1e-4 };
    let unit = c.reg() && c.std && (c.icpt as usize..r.k).any(|j| r.sd[j] == 1.);
    r.in_domain(&a)
        && !unit
        && cond(&r, &a).int < if c.f32 { 2e2 } else { 1e5 }
        && (0..r.n).all(|i| r.wt[i] == 0. || a.v[i] * a.de[i] * a.de[i] > vmin * if r.fam.domain() != 0 { 1e-3 } else { 1. })
}
fn without_row(c: &Case, i: usize) -> Case {
    let mut d = c.clone();
    let mut f: Vec<u32> = (0..c.n()).map(|j| c.f(j) as u32).collect();
    f[i] = 0;
    d.fw = Some(f);
    d
}

const PERT: usize = 3;
const PERT_K: f64 = 60.;

pub fn calibrated(c: &Case, cx: &mut Cx, qs: &[Q], which: u32) -> Result<Calib, Stop> {
    if c.l1 > 0. && (c.f32 || !c.fam.concave() || !c.icpt || !c.std) {
        return skip("L1 solutions of limited precision or several of them");
    }
    let mut out = None;
    fitted(c, cx, |f, r, a, _| {
        let cd = sane(r, a)?;
        let (l1, l2) = if c.f32 { (2e2, 1e3) } else { (1e4, 2e5) };
        if cd.int > l1 || cd.ext > l2 {
            return skip("ill-conditioned design");
        }
        if c.reg() && raw_cond(r, a) > if c.f32 { 1e3 } else { 1e6 } {
            return skip("near-collinear design with a penalty");
        }
        let vmin = if c.f32 { 1e-2 } else { 1e-4 };
        if (0..r.n).any(|i| r.wt[i] > 0. && !(a.v[i] * a.de[i] * a.de[i] > vmin * if r.fam.domain() != 0 { 1e-3 } else { 1. })) {
            return skip("near-degenerate fitted variance");
        }
        if r.fam == Fam::PoisSqrt && (0..r.n).any(|i| r.wt[i] > 0. && a.v[i] < vmin.sqrt()) {
            return skip("near-degenerate fitted variance");
        }
        if r.fam.free_dispersion() {
            let fl = super::stats::dev_floor(r, a);
            if !(r.deviance(a) > 100. * (0..r.n).map(|i| fl[i] * r.f[i]).sum::<f64>()) {
                return skip("perfect fit");
            }
        }
        let mut probe = super::info::probe(c, r, &a.b, which);
        let far = |r: &Ref, b: &[f64]| {
            let p = r.at(b);
            !r.in_domain(&p) || !calm(r, &p) || r.ll_mag(&p) > 1e3 * (1. + r.ll_mag(a))
        };
        if far(r, &probe) {
            probe = a.b.clone();
        }
        let vals = snap(f, c, qs, &probe);
        out = Some(Calib { r: Ref::new(c), a: r.at(&a.b), cd, probe, vals, tol: vec![], stud_ok: vec![], loo_ok: vec![], drop_ok: vec![], fl: 0., boost: std::cell::Cell::new(1.), l1: c.l1 > 0., null_ok: r.null().is_some_and(|n| n.0.is_finite()) });
        Ok(())
    })?;
    let mut k = out.unwrap();
    // perturbed problems
    let h = if c.f32 { 2e-3 } else { 1e-6 };
    let (r, a) = (&k.r, &k.a);
    let Some(inv) = r.fisher_int(a).inv() else { return skip("singular information") };
    let xi = r.x_int();
    let lmx = (0..r.n).map(|i| r.lin_mag(i, &a.b)).fold(1., f64::max);
    let mag = 1. + r.ll_mag(a);
    let ysd = {
        let m = r.y.iter().sum::<f64>() / r.n as f64;
        (r.y.iter().map(|y| (y - m) * (y - m)).sum::<f64>() / r.n as f64).sqrt()
    };
    let size: Vec<f64> = (0..r.n)
        .map(|i| {
            let lev = dot(xi.row(i), &inv.mulv(xi.row(i))).max(0.);
            let s = if r.fam.domain() != 0 {
                a.om[i].abs().min(r.u_om)
            } else if r.fam.is_lin() {
                ysd + 1e-3 * a.om[i].abs() + 1e-6 * r.u_mu
            } else {
                1.
            };
            h * s + (50. * r.eps * mag * lev).sqrt()
        })
        .collect();
    let mut g = Rng::new(0xca11b ^ (c.n() as u64) << 20 ^ (c.aux(0) * 1e3) as i64 as u64);
    let mut spread: Vec<Vec<f64>> = k.vals.iter().map(|v| vec![0.; v.flat().len()]).collect();
    for _ in 0..PERT {
        let mut d = c.clone();
        d.off = Some((0..c.n()).map(|i| c.o(i) + size[i] * g.sym(1.)).collect());
        let v = match with_fit(&d, |f| snap(f, &d, qs, &k.probe)) {
            Ok(v) => v,
            Err(_) => return skip("the perturbed problem is not solved"),
        };
        for (s, (v, o)) in spread.iter_mut().zip(v.iter().zip(&k.vals)) {
            let (v, o) = (v.flat(), o.flat());
            for i in 0..s.len() {
                let e = if i < v.len() { (v[i] - o[i]).abs() } else { f64::NAN };
                s[i] = if e.is_nan() { f64::NAN } else { s[i].max(e) };
            }
        }
    }
    let noise = if r.fam.free_dispersion() {
        let lm = (0..r.n).map(|i| r.lin_mag(i, &a.b)).fold(0., f64::max);
        let lmd = (0..r.n).map(|i| r.lin_mag(i, &a.b) / a.om[i].abs().min(r.u_om)).fold(0., f64::max);
        if r.fam.is_lin() {
            1e3 * r.eps * lm / (r.deviance(a) / r.sum_w()).sqrt()
        } else {
            1e3 * r.eps * if r.fam.domain() != 0 { lmd } else { lm }
        }
    } else if r.fam.domain() != 0 {
        (0..r.n).map(|i| 1e3 * r.eps * r.lin_mag(i, &a.b) / a.om[i].abs().min(r.u_om)).fold(0., f64::max)
    } else {
        0.
    };
    // other links converge linearly, and stop when the likelihood is flat
    let fl = floor(r.eps, &k.cd).max(noise) * if c.f32 && !r.fam.canonical() { 4. } else { 1. } * if c.l1 > 0. { 10. } else { 1. };
    k.fl = fl;
    k.tol = spread
        .iter()
        .zip(&k.vals)
        .map(|(s, v)| {
            let sc = maxabs(&v.flat());
            let m = s.iter().fold(0f64, |a, b| if b.is_finite() { a.max(*b) } else { a });
            s.iter().map(|s| PERT_K * (s + 0.05 * m) + fl * sc + 1e-300).collect()
        })
        .collect();
    // which rows can be left out
    let lev: Vec<f64> = (0..k.r.n).map(|i| k.r.wt[i] * k.a.v[i] * k.a.de[i] * k.a.de[i] * dot(xi.row(i), &inv.mulv(xi.row(i)))).collect();
    // division by the complement of the leverage
    for (qi, q) in qs.iter().enumerate() {
        let pw = match q {
            S(St::ResidPearStd) | S(St::ResidDevStd) | S(St::ResidStudent) => 1,
            S(St::Cooks) | S(St::InflCoef) => 2,
            _ => continue,
        };
        let v = k.vals[qi].flat();
        let (m, w) = (maxabs(&v), v.len() / k.r.n.max(1));
        for i in 0..v.len() {
            let g = 1. / (1. - lev[i / w.max(1)]).max(1e-6);
            k.tol[qi][i] += fl * (if pw == 1 { v[i].abs() * g } else { m * g });
        }
    }
    let dt = k.r.dev_terms(&k.a);
    let dev = k.r.deviance(&k.a);
    let slack = if c.f32 { 0.05 } else { 1e-3 };
    k.stud_ok = (0..k.r.n)
        .map(|i| {
            if !k.r.fam.free_dispersion() {
                return true;
            }
            let e = k.a.e[i] * k.a.e[i] * k.r.w[i] / k.a.v[i];
            let left = dev - k.r.f[i] * dt[i].max(e) / (1. - lev[i]).max(1e-12);
            let r2 = Ref::new(&without_row(c, i));
            left > slack * dev && r2.sum_w() > 0. && r2.n_eff() > k.r.k as f64 + 0.3
        })
        .collect();
    k.loo_ok = if qs.contains(&S(St::LooExact)) { (0..k.r.n).map(|i| regular(&without_row(c, i))).collect() } else { vec![true; k.r.n] };
    k.drop_ok = if qs.contains(&S(St::PExact)) {
        let o = c.icpt as usize;
        (0..c.k())
            .map(|j| {
                let mut d = c.clone();
                if j < o {
                    d.icpt = false;
                } else {
                    d = d.drop_col(j - o);
                }
                // without the intercept the penalty isn't on the standardised scale
                d.k() > 0 && (j >= o || !c.reg()) && (c.icpt || c.fam.domain() == 0) && (j >= o || c.fam.domain() == 0) && regular(&d)
            })
            .collect()
    } else {
        vec![true; c.k()]
    };
    // coefficients near zero
    if let Some(ci) = qs.iter().position(|q| *q == Coef) {
        if let Some(v) = k.r.fisher(&k.a).inv() {
            for j in 0..k.r.k {
                k.tol[ci][j] += 10. * k.r.eps.sqrt() * v.at(j, j).max(0.).sqrt();
            }
        }
    }
    // sums of likelihood terms cancel
    for (q, t) in qs.iter().zip(k.tol.iter_mut()) {
        let e = 1e4 * k.r.eps * mag * lmx;
        match q {
            Like | LrAt | S(St::LrTest) | S(St::NullLike) | S(St::Deviance) | S(St::Aic) | S(St::Bic) => t.iter_mut().for_each(|x| *x += e),
            // zero for models without covariates
            ScoreTestAt | WaldAt | S(St::WaldTest) | S(St::ScoreTest) => t.iter_mut().for_each(|x| *x += fl * if k.r.fam.is_lin() { k.r.u_mu * k.r.u_mu } else { 1. }),
            S(St::RSq) => t.iter_mut().for_each(|x| *x += fl),
            S(St::PLr) => t.iter_mut().for_each(|x| *x += e.sqrt()),
            // the deviance isn't stationary at penalised optima, and p-values near one go with the
            // square root of its change
            S(St::PExact) if c.l2 > 0. => {
                let phi = if k.r.fam.free_dispersion() { k.r.deviance(&k.a) / k.r.sum_w() } else { 1. };
                let d = fl * 2. * k.r.pen(&k.a.b) / phi;
                t.iter_mut().for_each(|x| *x += d.sqrt().min(0.05))
            }
            // square roots of cancelling differences
            S(St::ResidDev) | S(St::ResidDevStd) | S(St::ResidStudent) => t.iter_mut().for_each(|x| *x += (e / k.r.n as f64).sqrt()),
            _ => {}
        }
    }
    Ok(k)
}

/// A quantity of the related problem translated to the frame of the original one; `None` marks
/// entries which have no counterpart.
pub type Mapped = Option<Vec<Option<f64>>>;

pub fn some(v: Vec<f64>) -> Mapped {
    Some(v.into_iter().map(Some).collect())
}

/// How the related problem is expressed in terms of the original.
pub struct Map {
    /// original parameters = t * new parameters
    pub t: Mat,
    /// for each new row, the original row it stands for
    pub row: Vec<usize>,
    /// for each original covariate, the new covariate with the same column (up to affine maps)
    pub cov: Vec<usize>,
    pub n_old: usize,
    /// rows whose leverage-related statistics are comparable
    pub lone: Vec<bool>,
}
impl Map {
    pub fn id(c: &Case) -> Map {
        Map { t: Mat::eye(c.k()), row: (0..c.n()).collect(), cov: (0..c.p).collect(), n_old: c.n(), lone: vec![true; c.n()] }
    }
    pub fn new_params(&self, b: &[f64]) -> Vec<f64> {
        self.t.inv().expect("HARNESS: singular map").mulv(b)
    }
    pub fn apply(&self, q: Q, v: &Val) -> Mapped {
        let n = self.n_old;
        let k = self.t.r;
        let ti = self.t.inv().expect("HARNESS: singular map");
        // first new row for each old row
        let mut first = vec![None; n];
        for (i, o) in self.row.iter().enumerate() {
            if first[*o].is_none() {
                first[*o] = Some(i);
            }
        }
        let touchy = matches!(
            q,
            S(St::Cooks) | S(St::InflCoef) | S(St::LooExact) | S(St::ResidDevStd) | S(St::ResidPearStd) | S(St::ResidStudent)
        );
        let use_row = |o: usize| if touchy && !self.lone[o] { None } else { first[o] };
        Some(match (shape(q), v) {
            (Shape::Scalar, Val::S(x)) => vec![Some(*x)],
            (Shape::Param, Val::V(b)) => self.t.mulv(b).into_iter().map(Some).collect(),
            (Shape::ParamScore, Val::V(s)) => ti.t().mulv(s).into_iter().map(Some).collect(),
            (Shape::ParamWise, Val::V(z)) => (0..k)
                .map(|j| {
                    let nz: Vec<usize> = (0..k).filter(|m| self.t.at(j, *m) != 0.).collect();
                    if nz.len() != 1 {
                        return None;
                    }
                    let s = if q == S(St::WaldZ) { self.t.at(j, nz[0]).signum() } else { 1. };
                    Some(s * z[nz[0]])
                })
                .collect(),
            (Shape::Cov, Val::M(m)) => self.t.mul(m).mul(&self.t.t()).a.into_iter().map(Some).collect(),
            (Shape::Info, Val::M(m)) => ti.t().mul(m).mul(&ti).a.into_iter().map(Some).collect(),
            (Shape::Row, Val::V(x)) => {
                if q == S(St::Leverage) {
                    let mut o: Vec<Option<f64>> = vec![None; n];
                    for (i, r) in self.row.iter().enumerate() {
                        *o[*r].get_or_insert(0.) += x[i];
                    }
                    o
                } else {
                    (0..n).map(|o| use_row(o).map(|i| x[i])).collect()
                }
            }
            (Shape::Hat, Val::M(m)) => {
                let mut o = vec![None; n * n];
                for a in 0..n {
                    let Some(i) = first[a] else { continue };
                    for (j, b) in self.row.iter().enumerate() {
                        *o[a * n + b].get_or_insert(0.) += m.at(i, j);
                    }
                }
                o
            }
            (Shape::RowParam, Val::M(m)) => {
                let mut o = vec![None; n * k];
                for a in 0..n {
                    let Some(i) = use_row(a) else { continue };
                    for (j, b) in self.t.mulv(m.row(i)).into_iter().enumerate() {
                        o[a * k + j] = Some(b);
                    }
                }
                o
            }
            (Shape::RowCov, Val::M(m)) => {
                let p = self.cov.len();
                let mut o = vec![None; n * p];
                for a in 0..n {
                    let Some(i) = first[a] else { continue };
                    for j in 0..p {
                        o[a * p + j] = Some(m.at(i, self.cov[j]));
                    }
                }
                o
            }
            _ => return None,
        })
    }
}

/// Compare one quantity.
pub fn versus(cx: &mut Cx, k: &Calib, idx: usize, q: Q, new: &Val, mapped: impl FnOnce(&Val) -> Mapped) -> R {
    let name = qname(q);
    match &k.vals[idx] {
        Val::Na => return Ok(()),
        Val::E(_) => return Ok(()),
        _ if matches!(new, Val::Na) => return Ok(()),
        _ => {}
    }
    let want = k.vals[idx].flat();
    // the alternating iteration of L1 fits stops at a coarser tolerance
    if k.l1 && !matches!(q, Coef | Like | Mu | LrAt | S(St::Deviance)) {
        return Ok(());
    }
    if matches!(q, S(St::LrTest | St::PLr | St::NullLike | St::RSq | St::ScoreTest | St::WaldTest)) && !k.null_ok {
        return Ok(());
    }
    if let Val::E(e) = new {
        // failing re-fits are the subject of C15 and C16
        if q == S(St::LooExact) || q == S(St::PExact) {
            return Ok(());
        }
        // where the perturbed problems fail, too, the tolerance is not a number
        if k.tol[idx].iter().all(|t| t.is_finite()) && want.iter().all(|x| x.is_finite()) && !want.is_empty() {
            return fail(name, format!("an error for the related problem: {e:?}"));
        }
        return Ok(());
    }
    let Some(m) = mapped(new) else {
        return fail(name, format!("unexpected kind of value: {new:?}"));
    };
    if m.len() != want.len() {
        return fail(name, format!("{} entries instead of {}", m.len(), want.len()));
    }
    let kk = k.r.k;
    for i in 0..want.len() {
        let Some(g) = m[i] else { continue };
        // the distribution function saturates
        if q == S(St::ResidQuantile) && (maxabs(&new.flat()) > 5. || k.r.eps > 1e-10) && new.flat().iter().any(|x| x.abs() > 5.) && want[i].abs() > 0. {
            let raw = new.flat();
            if raw.len() == want.len() && raw[i].abs() > 4. {
                continue;
            }
        }
        let ok = match q {
            S(St::ResidStudent) => k.stud_ok[i],
            S(St::LooExact) => k.loo_ok[i / kk],
            S(St::PExact) => k.drop_ok[i],
            _ => true,
        };
        if !ok {
            continue;
        }
        let mut t = k.tol[idx][i] * k.boost.get();
        if matches!(q, S(St::PWald) | S(St::PExact) | S(St::PLr)) {
            // far tails carry the absolute error of the statistic
            t += 1e-6 * k.boost.get();
        }
        if !want[i].is_finite() || !t.is_finite() {
            continue;
        }
        if q == S(St::ResidQuantile) && (want[i].abs() > 5. || (g.is_infinite() && want[i].abs() > 1.5)) {
            continue;
        }
        if let Err(Stop::Fail(w, msg)) = cx.close(name, g, want[i], t) {
            return fail(w, format!("[{i}] {msg}"));
        }
    }
    Ok(())
}

/// Is either fit not at a regular maximum, or can there be several?
fn ambiguous(c: &Case, k: &Calib, d: &Case, b2: Option<&[f64]>) -> bool {
    if c.l1 > 0. {
        return false;
    }
    let bad = |r: &Ref, a: &At| match r.decrement(a) {
        Some(x) => !(x.abs() < 1e5 * r.eps * (1. + r.ll_mag(a))),
        None => true,
    };
    if bad(&k.r, &k.a) {
        return true;
    }
    if !c.fam.concave() {
        let Some(b2) = b2 else { return true };
        let r2 = Ref::new(d);
        let a2 = r2.at(b2);
        return r2.in_domain(&a2) && !bad(&r2, &a2);
    }
    false
}

/// Without an intercept, the library may not find any parameters in the domain of the link, and
/// says so.
fn no_start(d: &Case, e: &LibErr) -> bool {
    !matches!(e, LibErr::InvalidY(_) | LibErr::Build(_)) && !d.icpt && d.fam.domain() != 0
}

/// Condition of the information without the penalty. The sandwich covariance cancels if it is large.
fn raw_cond(r: &Ref, a: &At) -> f64 {
    let xi = r.x_int();
    r.gram(&xi, a).cond_scaled()
}

/// May the library fail to solve the related problem? Convergence is the subject of C03.
fn excused(c: &Case, k: &Calib, d: &Case, e: &LibErr) -> bool {
    matches!(e, LibErr::MaxIter { .. }) || (d.fam.domain() != 0 && matches!(e, LibErr::Linalg(_))) || c.l1 > 0. || ambiguous(c, k, d, None) || no_start(d, e)
}

/// Allow for the conditioning of the related problem.
fn boost(k: &Calib, d: &Case, b: &[f64]) -> R {
    let r2 = Ref::new(d);
    let a2 = r2.at(b);
    let c2 = cond(&r2, &a2);
    if d.reg() && raw_cond(&r2, &a2) > if k.r.eps > 1e-10 { 1e3 } else { 1e6 } {
        return skip("near-collinear design with a penalty");
    }
    let lim = if k.r.eps > 1e-10 { 1e3 } else { 1e6 };
    if !(c2.int < lim) || !(c2.ext < 10. * lim) {
        return skip("the related problem is ill-conditioned");
    }
    let f = floor(r2.eps.max(k.r.eps), &c2);
    k.boost.set((f / k.fl).max(1.));
    Ok(())
}
fn floor(eps: f64, cd: &Cond) -> f64 {
    (if eps > 1e-10 { 3e-3f64 } else { 1e-5 }).max(1e3 * eps * cd.int.max(1.)).max(30. * eps * cd.ext)
}

/// Fit the related problem and compare every quantity. `adj` scales a quantity of the new problem
/// to that of the original or leaves it out.
pub fn related(c: &Case, cx: &mut Cx, qs: &[Q], k: &Calib, d: &Case, map: &Map, adj: impl Fn(Q) -> Option<f64>) -> R {
    let probe = map.new_params(&k.probe);
    let res = with_fit(d, |f| (f.result(), snap(f, d, qs, &probe)));
    let (b2, vals) = match res {
        Ok(v) => v,
        Err(e) => {
            if excused(c, k, d, &e) {
                return skip("the related problem is not solved and this may be irregular");
            }
            return fail("the related problem is fitted as well", format!("{e:?}"));
        }
    };
    boost(k, d, &b2)?;
    for (i, q) in qs.iter().enumerate() {
        let Some(s) = adj(*q) else { continue };
        let out = versus(cx, k, i, *q, &vals[i], |v| {
            map.apply(*q, v).map(|m| m.into_iter().map(|x| x.map(|x| x * s)).collect())
        });
        if let Err(Stop::Fail(w, m)) = out {
            if ambiguous(c, k, d, Some(&b2)) {
                return skip("several or irregular optima");
            }
            return fail(w, m);
        }
    }
    Ok(())
}

fn full(c: &Case) -> Vec<Q> {
    let mut q = ALLQ.to_vec();
    if c.n() <= 14 && c.aux(3) > 0.5 && c.l1 == 0. {
        q.push(S(St::LooExact));
    }
    if c.p <= 3 && c.aux(4) > 0. && c.l1 == 0. && !c.f32 {
        q.push(S(St::PExact));
    }
    q
}
/// Statistics which amplify rounding when a leverage is close to one.
fn mild(k: &Calib) -> impl Fn(Q) -> Option<f64> + 'static {
    let hot = {
        let inv = k.r.fisher_int(&k.a).inv();
        let xi = k.r.x_int();
        (0..k.r.n).any(|i| match &inv {
            Some(m) => 1. - k.r.wt[i] * k.a.v[i] * k.a.de[i] * k.a.de[i] * dot(xi.row(i), &m.mulv(xi.row(i))) < 1e-4 * if k.r.eps > 1e-10 { 1e2 } else { 1. },
            None => true,
        })
    };
    let flat = k.r.fam.free_dispersion() && k.r.deviance(&k.a) < 1e-6 * (1. + k.r.sat_mag());
    move |q| match q {
        S(St::Cooks) | S(St::InflCoef) | S(St::LooExact) | S(St::ResidDevStd) | S(St::ResidPearStd) | S(St::ResidStudent) if hot || flat => None,
        S(St::WaldZ) | S(St::PWald) | S(St::PExact) | S(St::RSq) | S(St::ResidQuantile) if flat => None,
        _ => Some(1.),
    }
}

// ---- C04 --------------------------------------------------------------------------------------
fn gen04(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l2p: 0., pmin: 1, ..Prof::default() })
}
fn check04(c: &Case, cx: &mut Cx) -> R {
    let qs = full(c);
    let k = calibrated(c, cx, &qs, 1 + c.kind % 2)?;
    let mut d = c.clone();
    d.std = !c.std;
    let r2 = Ref::new(&d);
    let a2 = r2.at(&k.a.b);
    if cond(&r2, &a2).int > if c.f32 { 2e2 } else { 1e6 } {
        return skip("ill-conditioned without standardisation");
    }
    related(c, cx, &qs, &k, &d, &Map::id(c), mild(&k))?;
    cx.nontrivial = c.p >= 1;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

// ---- C05 --------------------------------------------------------------------------------------
fn gen05(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { pmin: 1, l1p: 0.08, enp: 0.04, kinds: 5, ..Prof::default() });
    c.aux = (0..12).map(|_| r.sym(1.)).collect();
    c
}
fn perm(n: usize, seed: f64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    Rng::new(seed.to_bits()).shuffle(&mut p);
    p
}
fn check05(c: &Case, cx: &mut Cx) -> R {
    let mut c = c.clone();
    let layout = c.layout;
    c.layout = 0;
    let c = &c;
    let qs = full(c);
    let k = calibrated(c, cx, &qs, 1)?;
    let o = c.icpt as usize;
    let mut d = c.clone();
    let mut map = Map::id(c);
    let all = c.kind == 4;
    if c.kind == 0 || all {
        let p = perm(c.n(), c.aux(5));
        d = d.permute_rows(&p);
        map.row = p;
    }
    if c.kind == 1 || all {
        let p = perm(c.p, c.aux(6));
        d = d.permute_cols(&p);
        // new column j is old column p[j]
        let mut t = Mat::zeros(c.k(), c.k());
        if c.icpt {
            t.set(0, 0, 1.);
        }
        for j in 0..c.p {
            t.set(p[j] + o, j + o, 1.);
            map.cov[p[j]] = j;
        }
        map.t = t;
    }
    // a penalty on standardised covariates follows their scale, unless they have none
    let scaled = c.std && k.r.n_eff() > 1.001 && (o..k.r.k).all(|j| col_moments(&k.r.x.col(j), &k.r.wt, k.r.n_eff()).1 > 1e-3 * maxabs(&k.r.x.col(j)) && k.r.sd[j] != 1.);
    if (c.kind == 2 || all) && (!c.reg() || scaled) {
        let mut t2 = Mat::eye(c.k());
        for j in 0..c.p {
            let a = [2., -1., 0.5, 10., -0.1, 1., 3.][((c.aux(j) + 1.) * 3.49) as usize % 7];
            let mut s = if c.icpt { [0., 1., -5., 0.3, 0.][((c.aux(j + 4) + 1.) * 2.49) as usize % 5] } else { 0. };
            // units such as nanometres or light years for a covariate that is standardised anyway
            let unit = if c.std && c.aux(9) > 0.4 { [1., 2f64.powi(-34), 2f64.powi(40), 2f64.powi(-45)][((c.aux(j + 7) + 1.) * 1.99) as usize % 4] } else { 1. };
            if unit != 1. {
                cx.label(if unit < 1. { "tiny unit" } else { "huge unit" });
            }
            let a = a * unit;
            s *= unit;
            for row in d.x.iter_mut() {
                row[j] = a * row[j] + s;
            }
            // x' = a x + s
            t2.set(j + o, j + o, a);
            if c.icpt {
                t2.set(0, j + o, s);
            }
        }
        map.t = map.t.mul(&t2);
        cx.label("affine");
    }
    if c.kind == 3 || all {
        d.layout = layout;
        d.ytype = c.ytype.wrapping_add(1);
        cx.label(format!("layout {}", layout % 7));
    }
    if d == *c {
        return skip("identity transformation");
    }
    let r2 = Ref::new(&d);
    let a2 = r2.at(&map.new_params(&k.a.b));
    if !(cond(&r2, &a2).int < if c.f32 { 2e2 } else { 1e6 }) {
        return skip("ill-conditioned after the transformation");
    }
    if c.f32 && d.x.iter().flatten().any(|x| *x != *x as f32 as f64) && c.kind != 0 {
        return skip("not representable after the transformation");
    }
    let md = mild(&k);
    related(c, cx, &qs, &k, &d, &map, |q| if c.l1 > 0. && matches!(q, S(St::ScoreTest) | ScoreAt | ScoreTestAt) { None } else { md(q) })?;
    cx.nontrivial = true;
    cx.label(["rows permuted", "columns permuted", "columns rescaled", "layout", "all"][c.kind as usize % 5]);
    Ok(())
}

// ---- C06 --------------------------------------------------------------------------------------
fn gen06(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { fwp: 1., big_fw: false, l1p: 0.04, enp: 0.03, kinds: 3, ..Prof::default() });
    if let Some(f) = &mut c.fw {
        for v in f.iter_mut() {
            *v = (*v).min(12);
        }
    }
    c
}
fn check06(c: &Case, cx: &mut Cx) -> R {
    let Some(fw) = &c.fw else { return skip("no frequency weights") };
    let qs: Vec<Q> = full(c);
    let k = calibrated(c, cx, &qs, 1)?;
    let mut g = Rng::new(c.aux(5).to_bits());
    let mut row = vec![];
    let mut parts: Vec<u32> = vec![];
    let mut lone = vec![true; c.n()];
    for i in 0..c.n() {
        let f = fw[i];
        match c.kind {
            0 => {
                // full expansion
                for _ in 0..f {
                    row.push(i);
                    parts.push(1);
                }
                lone[i] = f <= 1;
            }
            1 => {
                // split into two weighted rows, or drop when empty
                let a = if f > 0 { g.below(f as usize + 1) as u32 } else { 0 };
                for v in [a, f - a] {
                    if v > 0 {
                        row.push(i);
                        parts.push(v);
                    }
                }
                lone[i] = a == 0 || a == f;
            }
            _ => {
                // only leave out the rows with no observations
                if f > 0 {
                    row.push(i);
                    parts.push(f);
                }
            }
        }
    }
    if row.is_empty() {
        return skip("no observations");
    }
    // spread the copies around
    let p = perm(row.len(), c.aux(6));
    let row: Vec<usize> = p.iter().map(|i| row[*i]).collect();
    let parts: Vec<u32> = p.iter().map(|i| parts[*i]).collect();
    let mut d = c.permute_rows(&row);
    d.fw = if parts.iter().all(|p| *p == 1) && c.aux(7) > -0.6 { None } else { Some(parts.clone()) };
    if d == *c {
        return skip("identity transformation");
    }
    let map = Map { row: row.clone(), lone, ..Map::id(c) };
    let md = mild(&k);
    related(c, cx, &qs, &k, &d, &map, |q| if c.l1 > 0. && matches!(q, ScoreAt | ScoreTestAt | S(St::ScoreTest)) { None } else { md(q) })?;
    cx.nontrivial = fw.iter().any(|f| *f != 1);
    cx.label(["expanded", "split", "empty rows left out"][c.kind as usize % 3]);
    if fw.contains(&0) {
        cx.label("zero frequency");
    }
    Ok(())
}

// ---- C07 --------------------------------------------------------------------------------------
fn gen07(r: &mut Rng) -> Case {
    let kind = r.below(3) as u32;
    let mut c = gen_case(r, &Prof { vwp: if kind == 1 { 0. } else { 0.8 }, l1p: 0.04, enp: 0.03, ..Prof::default() });
    c.kind = kind;
    if kind == 2 {
        let n = c.n();
        c.vw = Some((0..n).map(|_| [1., 1., 2., 3., 4.][r.below(5)]).collect());
        if c.reg() {
            c.std = false;
        }
    }
    c
}
fn check07(c: &Case, cx: &mut Cx) -> R {
    let qs = full(c);
    let k = calibrated(c, cx, &qs, 1)?;
    let free = c.fam.free_dispersion();
    let md = mild(&k);
    let l1 = c.l1 > 0.;
    match c.kind {
        0 => {
            let s = [0.25, 0.5, 2., 4., 8., 3., 10.][((c.aux(5) + 1.) * 3.49) as usize % 7];
            let mut d = c.clone();
            d.vw = Some((0..c.n()).map(|i| c.w(i) * s).collect());
            d.l1 *= s;
            d.l2 *= s;
            if c.f32 && (s == 3. || s == 10.) {
                return skip("not representable after the transformation");
            }
            let rt = s.sqrt();
            related(c, cx, &qs, &k, &d, &Map::id(c), |q| {
                md(q)?;
                Some(match q {
                    Like | LrAt | FisherAt | ScoreAt | ScoreTestAt | WaldAt => 1. / s,
                    S(St::Deviance | St::LrTest | St::NullLike | St::ScoreTest | St::WaldTest | St::Rss) => 1. / s,
                    // the documented dispersion is per unit of weight
                    S(St::Dispersion) => 1.,
                    S(St::Cov) => s,
                    S(St::Cooks) => 1. / s,
                    S(St::WaldZ | St::ResidPear | St::ResidDev | St::ResidPearStd | St::ResidDevStd | St::ResidStudent) => 1. / rt,
                    S(St::PWald | St::PExact | St::PLr | St::Aic | St::Bic) => return None,
                    S(St::ResidQuantile) if c.fam.is_lin() => 1. / rt,
                    S(St::ResidQuantile) if free => return None,
                    _ => 1.,
                })
            })?;
            cx.label("common factor");
        }
        1 => {
            let mut d = c.clone();
            d.vw = Some(vec![1.; c.n()]);
            related(c, cx, &qs, &k, &d, &Map::id(c), md)?;
            cx.label("unit weights");
        }
        _ => {
            let Some(vw) = &c.vw else { return skip("no variance weights") };
            if vw.iter().any(|w| w.fract() != 0.) || (c.reg() && c.std) {
                return skip("penalised on a scale that depends on the effective sample size");
            }
            // turn the weights into repetitions, by rows or by frequencies
            let mut d = c.clone();
            let mut map = Map::id(c);
            if c.aux(5) > 0. {
                d.fw = Some((0..c.n()).map(|i| (c.f(i) * vw[i]) as u32).collect());
                d.vw = None;
            } else {
                let row: Vec<usize> = (0..c.n()).flat_map(|i| vec![i; vw[i] as usize]).collect();
                d = c.permute_rows(&row);
                d.vw = None;
                map.row = row;
            }
            related(c, cx, &qs, &k, &d, &map, |q| match q {
                ScoreAt | ScoreTestAt | S(St::ScoreTest) if l1 => None,
                Coef | Like | Mu | FisherAt | ScoreAt | LrAt | ScoreTestAt | WaldAt => Some(1.),
                S(St::Deviance | St::LrTest | St::NullLike | St::ScoreTest | St::WaldTest | St::TestNdf | St::PLr) => Some(1.),
                S(St::RSq) => md(q),
                S(St::Rss | St::Leverage | St::Hat | St::ResidResp | St::ResidWork | St::ResidPart) => Some(1.),
                S(St::Cov | St::WaldZ | St::PWald) if !free => Some(1.),
                _ => None,
            })?;
            cx.label("integer weights");
        }
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

// ---- C08 --------------------------------------------------------------------------------------
fn gen08(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { offp: 0.6, kinds: 4, ..Prof::default() });
    match c.kind {
        0 | 2 if !c.icpt || c.kind == 0 => c.l2 = 0.,
        _ => {}
    }
    c
}
fn check08(c: &Case, cx: &mut Cx) -> R {
    let qs = full(c);
    let k = calibrated(c, cx, &qs, 1)?;
    let md = mild(&k);
    let r = &k.r;
    match c.kind {
        0 | 2 => {
            // a combination of the columns moves from the offset to the coefficients
            let mut v = vec![0.; r.k];
            for j in 0..r.k {
                let free = c.l2 == 0. && c.l1 == 0.;
                if (j == 0 && c.icpt) || free {
                    let s = if j == 0 && c.icpt { 1. } else { r.sd[j].max(0.1 * maxabs(&r.x.col(j))).max(1e-6) };
                    v[j] = c.aux(j) / s;
                }
            }
            if r.fam.domain() != 0 {
                v.iter_mut().for_each(|x| *x *= 0.3);
            }
            if r.fam.domain() != 0 || r.fam.is_lin() {
                // in units of the linear predictor
                let u = k.a.om.iter().map(|w| w.abs()).sum::<f64>() / r.n as f64;
                v.iter_mut().for_each(|x| *x *= u.max(1e-12));
            }
            let mut d = c.clone();
            d.off = Some((0..c.n()).map(|i| c.o(i) + dot(r.x.row(i), &v)).collect());
            if c.f32 {
                return skip("not representable in single precision");
            }
            let probe: Vec<f64> = (0..r.k).map(|j| k.probe[j] - v[j]).collect();
            let res = with_fit(&d, |f| (f.result(), snap(f, &d, &qs, &probe)));
            let (b2, vals) = match res {
                Ok(v) => v,
                Err(e) => {
                    if excused(c, &k, &d, &e) {
                        return skip("the related problem is not solved and this may be irregular");
                    }
                    return fail("the related problem is fitted as well", format!("{e:?}"));
                }
            };
            boost(&k, &d, &b2)?;
            let only_icpt = v.iter().enumerate().all(|(j, x)| *x == 0. || (j == 0 && c.icpt));
            for (i, q) in qs.iter().enumerate() {
                let null = matches!(q, S(St::LrTest | St::NullLike | St::ScoreTest | St::WaldTest | St::PLr | St::RSq));
                if md(*q).is_none() || (null && !only_icpt) {
                    continue;
                }
                // tests of single coefficients and partial residuals depend on the shifted values
                let per_par = matches!(q, S(St::WaldZ | St::PWald | St::PExact | St::ResidPart));
                let out = versus(cx, &k, i, *q, &vals[i], |val| {
                    let mut m = Map::id(c).apply(*q, val)?;
                    if shape(*q) == Shape::Param {
                        m = m.iter().zip(&v).map(|(a, s)| a.map(|a| a + s)).collect();
                    }
                    if *q == S(St::LooExact) {
                        m = m.iter().enumerate().map(|(i, a)| a.map(|a| a + v[i % r.k])).collect();
                    }
                    if per_par {
                        for (i, x) in m.iter_mut().enumerate() {
                            let j = match q {
                                S(St::ResidPart) => i % c.p + c.icpt as usize,
                                _ => i,
                            };
                            if v[j] != 0. {
                                *x = None;
                            }
                        }
                    }
                    Some(m)
                });
                if let Err(Stop::Fail(w, m)) = out {
                    if ambiguous(c, &k, &d, Some(&b2)) {
                        return skip("several or irregular optima");
                    }
                    return fail(w, m);
                }
            }
            cx.label(if only_icpt { "constant" } else { "combination" });
        }
        1 => {
            let mut d = c.clone();
            if c.off.is_some() {
                if c.fam != Fam::Lin || c.f32 {
                    return skip("only without offsets");
                }
                // equivalent to subtracting from the response
                d.y = (0..c.n()).map(|i| c.y[i] - c.o(i)).collect();
                d.off = None;
                d.ytype = 0;
                let shift: f64 = (0..c.n()).map(|i| r.wt[i] * (c.y[i] * c.o(i) - 0.5 * c.o(i) * c.o(i))).sum();
                let mut qs2 = qs.clone();
                qs2.retain(|q| *q != Mu);
                let k2 = calibrated(c, cx, &qs2, 1)?;
                let probe = k2.probe.clone();
                let vals = lift(with_fit(&d, |f| snap(f, &d, &qs2, &probe)))?;
                for (i, q) in qs2.iter().enumerate() {
                    if md(*q).is_none() {
                        continue;
                    }
                    let add = match q {
                        Like | S(St::NullLike) => shift,
                        S(St::Aic | St::Bic) => continue,
                        _ => 0.,
                    };
                    versus(cx, &k2, i, *q, &vals[i], |v| Map::id(c).apply(*q, v).map(|m| m.into_iter().map(|x| x.map(|x| x + add)).collect()))?;
                }
                cx.label("linear: offset as response");
            } else {
                d.off = Some(vec![0.; c.n()]);
                related(c, cx, &qs, &k, &d, &Map::id(c), md)?;
                cx.label("zero offset");
            }
        }
        _ => {
            // an offset equal to a column of a larger model with its coefficient fixed there
            if c.p == 0 || c.reg() || c.f32 || c.fam.domain() != 0 {
                return skip("needs an unpenalised covariate");
            }
            let j = c.p - 1 + c.icpt as usize;
            let bj = k.a.b[j];
            let mut d = c.clone();
            d.off = Some((0..c.n()).map(|i| c.o(i) + bj * c.x[i][c.p - 1]).collect());
            d = d.drop_col(c.p - 1);
            if d.k() == 0 {
                return skip("needs an unpenalised covariate");
            }
            let (b2, like) = match with_fit(&d, |f| (f.result(), f.model_like())) {
                Ok(v) => v,
                Err(e) => {
                    if excused(c, &k, &d, &e) {
                        return skip("the related problem is not solved and this may be irregular");
                    }
                    return fail("the related problem is fitted as well", format!("{e:?}"));
                }
            };
            if ambiguous(c, &k, &d, Some(&b2)) {
                return skip("several or irregular optima");
            }
            let ci = qs.iter().position(|q| *q == Coef).unwrap();
            for l in 0..d.k() {
                cx.close("coefficients given another coefficient as an offset", b2[l], k.a.b[l], k.tol[ci][l])?;
            }
            let li = qs.iter().position(|q| *q == Like).unwrap();
            cx.close("likelihood given a coefficient as an offset", like, k.vals[li].flat()[0], k.tol[li][0])?;
            cx.label("profile");
        }
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

// ---- C20 --------------------------------------------------------------------------------------
fn gen20(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { f32p: 1., l2p: 0.25, shiftp: 0.05, pmax: 3, ..Prof::default() });
    c.layout = 0;
    c
}
fn check20(c: &Case, cx: &mut Cx) -> R {
    // calibrate the single-precision problem, and compare with the double-precision fit
    let mut qs = ALLQ.to_vec();
    if c.aux(4) > 0.5 && c.p <= 2 {
        qs.push(S(St::PExact));
    }
    let k = calibrated(c, cx, &qs, 1)?;
    let mut d = c.clone();
    d.f32 = false;
    let md = mild(&k);
    related(c, cx, &qs, &k, &d, &Map::id(c), |q| match q {
        // p-values of far tails carry the relative error of the statistic
        S(St::ResidQuantile) => None,
        q => md(q),
    })?;
    cx.nontrivial = c.p >= 1;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

// ---- C21 --------------------------------------------------------------------------------------
fn gen21(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { fams: &[Fam::Logit, Fam::Pois, Fam::Lin, Fam::Logit, Fam::GamNeg, Fam::PoisSqrt], l1p: 0.04, kinds: 2, ..Prof::default() });
    c.f32 = false;
    c
}
fn check21(c: &Case, cx: &mut Cx) -> R {
    let qs = full(c);
    let k = calibrated(c, cx, &qs, 1)?;
    let md = mild(&k);
    let mut d = c.clone();
    // new linear predictor = s * old + b
    let (fam, s, b) = match (c.fam, c.kind) {
        (Fam::Logit, 0) => (Fam::LogitCustom, 1., 0.),
        (Fam::Logit, _) => (Fam::BernLogLin, 0.5, 0.),
        (Fam::Pois, _) => (Fam::PoisCustom, 1., 0.),
        (Fam::Lin, _) => (Fam::LinAffine, AFF_A, AFF_B),
        (Fam::GamNeg, _) => (Fam::GamRec, -1., 0.),
        _ => return skip("no equivalent link"),
    };
    d.fam = fam;
    if b != 0. && !c.icpt && c.off.is_none() {
        d.off = Some(vec![b; c.n()]);
    } else {
        d.off = c.off.as_ref().map(|o| o.iter().map(|o| s * o + if c.icpt { 0. } else { b }).collect());
    }
    d.l2 = c.l2 / (s * s);
    d.l1 = c.l1 / s.abs();
    let mut map = Map::id(c);
    map.t = map.t.scale(1. / s);
    let shift = if c.icpt { b } else { 0. };
    // the intercept takes up the constant
    let mut probe = map.new_params(&k.probe);
    if c.icpt {
        probe[0] += shift;
    }
    let res = with_fit(&d, |f| (f.result(), snap(f, &d, &qs, &probe)));
    let (b2, vals) = match res {
        Ok(v) => v,
        Err(e) => {
            if excused(c, &k, &d, &e) {
                return skip("the related problem is not solved and this may be irregular");
            }
            return fail("the related problem is fitted as well", format!("{e:?}"));
        }
    };
    boost(&k, &d, &b2)?;
    for (i, q) in qs.iter().enumerate() {
        if md(*q).is_none() || (c.l1 > 0. && matches!(q, ScoreAt | ScoreTestAt | S(St::ScoreTest))) {
            continue;
        }
        // the intercept is measured from another origin; quantities only for the plain family
        if matches!(q, S(St::RSq | St::Rss)) {
            continue;
        }
        let out = versus(cx, &k, i, *q, &vals[i], |v| {
            let mut m = map.apply(*q, v)?;
            let f = match q {
                S(St::ResidWork | St::ResidPart) => 1. / s,
                _ => 1.,
            };
            if f != 1. {
                m = m.into_iter().map(|x| x.map(|x| x * f)).collect();
            }
            if shift != 0. {
                match q {
                    Coef => m[0] = m[0].map(|x| x - shift / s),
                    S(St::LooExact) => {
                        for (i, x) in m.iter_mut().enumerate() {
                            if i % k.r.k == 0 {
                                *x = x.map(|x| x - shift / s);
                            }
                        }
                    }
                    S(St::WaldZ | St::PWald | St::PExact) => m[0] = None,
                    _ => {}
                }
            }
            Some(m)
        });
        if let Err(Stop::Fail(w, m)) = out {
            if ambiguous(c, &k, &d, Some(&b2)) {
                return skip("several or irregular optima");
            }
            return fail(w, m);
        }
    }
    cx.nontrivial = true;
    cx.label(format!("{:?} as {:?}", c.fam, fam));
    Ok(())
}

// ---- C22 --------------------------------------------------------------------------------------
fn gen22(r: &mut Rng) -> Case {
    let fams: &[Fam] = &[
        Fam::Bin1, Fam::Bin2, Fam::Bin7, Fam::ExpNeg, Fam::ExpLog, Fam::GamLog, Fam::GamNeg, Fam::IgLog, Fam::IgNeg, Fam::Lin,
        Fam::ExpLog, Fam::Logit, Fam::Pois, Fam::Cloglog, Fam::Bin40,
    ];
    let mut c = gen_case(r, &Prof { fams, kinds: 3, ..Prof::default() });
    c.f32 = false;
    if c.kind == 2 && r.chance(0.6) {
        // groups only: a one-hot design
        let g = 1 + r.below(3);
        let n = c.n();
        c.p = g - 1;
        c.icpt = true;
        c.x = (0..n).map(|i| (1..g).map(|j| (i % g == j) as u8 as f64).collect()).collect();
        c.off = None;
        c.l1 = 0.;
        c.l2 = 0.;
    }
    c
}
fn check22(c: &Case, cx: &mut Cx) -> R {
    if c.k() == 0 || c.n() < 2 {
        return skip("nothing to compare");
    }
    let qs = full(c);
    let mut k = calibrated(c, cx, &qs, 1)?;
    let md = mild(&k);
    let n = c.n();
    if c.kind == 2 {
        // the fitted values of a model with groups only are the means of the groups
        let g = c.p + 1;
        let grouped = c.icpt && c.off.is_none() && !c.reg() && (0..n).all(|i| (1..g).all(|j| c.x[i][j - 1] == (i % g == j) as u8 as f64));
        if !grouped {
            // with a canonical link, the residuals are orthogonal to the design
            if !c.fam.canonical() || c.reg() {
                return skip("neither grouped nor canonical");
            }
            let res = lift_v(&k, &qs, S(St::ResidResp))?;
            let mi = qs.iter().position(|q| *q == S(St::ResidResp)).unwrap();
            for j in 0..k.r.k {
                let s: f64 = (0..n).map(|i| k.r.wt[i] * k.r.x.at(i, j) * res[i]).sum();
                let t: f64 = (0..n).map(|i| k.r.wt[i] * k.r.x.at(i, j).abs() * (k.tol[mi][i] + 1e-6 * c.y[i].abs() + 1e-300)).sum();
                cx.close("residuals of a canonical model are orthogonal to the design", s, 0., t)?;
            }
            cx.label("moment equations");
        } else {
            let res = lift_v(&k, &qs, S(St::ResidResp))?;
            let mi = qs.iter().position(|q| *q == S(St::ResidResp)).unwrap();
            for j in 0..g {
                let s: f64 = (0..n).filter(|i| i % g == j).map(|i| k.r.wt[i] * res[i]).sum();
                let t: f64 = (0..n).filter(|i| i % g == j).map(|i| k.r.wt[i] * (k.tol[mi][i] + 1e-6 * c.y[i].abs() + 1e-300)).sum();
                cx.close("the fitted value of a group is its mean", s, 0., t)?;
            }
            cx.label("group means");
        }
        cx.nontrivial = true;
        return Ok(());
    }
    let mut d = c.clone();
    let mut map = Map::id(c);
    match c.fam {
        Fam::Bin1 => {
            d.fam = Fam::Logit;
            related(c, cx, &qs, &k, &d, &map, md)?;
        }
        Fam::Bin2 | Fam::Bin7 | Fam::Bin40 => {
            let nn = c.fam.bin_n() as u32;
            if c.reg() && c.std {
                return skip("penalised on a scale that depends on the sample size");
            }
            d.fam = Fam::Logit;
            // rows of successes and failures with frequencies
            let mut row = vec![];
            let mut y = vec![];
            let mut fw = vec![];
            for i in 0..n {
                for (v, m) in [(1., c.y[i] as u32), (0., nn - c.y[i] as u32)] {
                    if c.aux(5) > 0. {
                        row.push(i);
                        y.push(v);
                        fw.push(m * c.f(i) as u32);
                    } else {
                        for _ in 0..m {
                            row.push(i);
                            y.push(v);
                            fw.push(c.f(i) as u32);
                        }
                    }
                }
            }
            if row.len() > 90 {
                return skip("too many outcomes");
            }
            d = d.permute_rows(&row);
            d.y = y;
            d.fw = Some(fw);
            map.row = row;
            related(c, cx, &qs, &k, &d, &map, |q| match q {
                Coef | Like | FisherAt | ScoreAt | LrAt | ScoreTestAt | WaldAt => Some(1.),
                Mu => Some(nn as f64),
                S(St::Cov | St::NullLike | St::LrTest | St::PLr | St::WaldZ | St::PWald | St::WaldTest | St::ScoreTest | St::TestNdf) => Some(1.),
                S(St::Leverage) => Some(1.),
                S(St::PExact) => Some(1.),
                _ => None,
            })?;
        }
        Fam::ExpNeg | Fam::ExpLog => {
            d.fam = if c.fam == Fam::ExpNeg { Fam::GamNeg } else { Fam::GamLog };
            related(c, cx, &qs, &k, &d, &map, |q| match q {
                S(St::Dispersion | St::Cov | St::WaldZ | St::PWald | St::PExact | St::Cooks | St::ResidDevStd | St::ResidPearStd
                | St::ResidStudent | St::ResidQuantile) => None,
                q => md(q),
            })?;
        }
        Fam::GamLog | Fam::IgLog | Fam::Lin | Fam::GamNeg | Fam::IgNeg => {
            // scaling the response
            let s = [2., 0.5, 4., 3., 0.1, 1e-6, 1e5, 1e-3, 1e12, 1e-12][((c.aux(5) + 1.) * 4.99) as usize % 10];
            // convergence is judged on the scale of the likelihood
            let s = if s > 10. && matches!(c.fam, Fam::IgNeg | Fam::IgLog) { 1. / s } else { s };
            let log = matches!(c.fam, Fam::GamLog | Fam::IgLog);
            let lin = c.fam == Fam::Lin;
            if c.reg() && !log && !lin {
                return skip("the penalty is on another scale");
            }
            if log && !c.icpt {
                return skip("needs an intercept");
            }
            if c.fam == Fam::IgLog && c.reg() {
                return skip("the penalty is on another scale");
            }
            d.y = c.y.iter().map(|y| y * s).collect();
            d.ytype = 0;
            // new linear predictor = ws * old + add
            let (ws, add) = match c.fam {
                Fam::GamNeg => (1. / s, 0.),
                Fam::IgNeg => (1. / (s * s), 0.),
                Fam::Lin => (s, if c.icpt { c.aux(6) * 3. * s * maxabs(&c.y) } else { 0. }),
                _ => (1., s.ln()),
            };
            if lin {
                d.y.iter_mut().for_each(|y| *y += add);
            }
            d.off = c.off.as_ref().map(|o| o.iter().map(|o| o * ws).collect());
            map.t = map.t.scale(1. / ws);
            let mut probe = map.new_params(&k.probe);
            if c.icpt {
                probe[0] += add;
            }
            let res = with_fit(&d, |f| (f.result(), snap(f, &d, &qs, &probe)));
            let (b2, vals) = match res {
                Ok(v) => v,
                Err(e) => {
                    if excused(c, &k, &d, &e) {
                        return skip("the related problem is not solved and this may be irregular");
                    }
                    return fail("the related problem is fitted as well", format!("{e:?}"));
                }
            };
            boost(&k, &d, &b2)?;
            let r2 = Ref::new(&d);
            let mag2 = 1. + r2.ll_mag(&r2.at(&b2));
            // factor of the deviance; linear responses are measured in squared units
            let ds = match c.fam {
                Fam::IgLog | Fam::IgNeg => 1. / s,
                Fam::Lin => s * s,
                _ => 1.,
            };
            for (i, q) in qs.iter().enumerate() {
                let f = match q {
                    Coef | S(St::InflCoef | St::LooExact) => 1.,
                    Mu | S(St::ResidResp) => 1. / s,
                    S(St::Deviance | St::Dispersion | St::Rss | St::LrTest) | LrAt | ScoreTestAt | WaldAt | S(St::ScoreTest | St::WaldTest) => 1. / ds,
                    // Info maps with t; the information per unit of the likelihood scales with ds
                    FisherAt | ScoreAt => 1. / ds,
                    S(St::Cov) => if c.fam.free_dispersion() { 1. } else { continue },
                    S(St::Hat | St::Leverage | St::Cooks | St::ResidPearStd | St::ResidDevStd | St::ResidStudent | St::ResidQuantile) => 1.,
                    S(St::WaldZ | St::PWald | St::PExact | St::RSq | St::Ndf | St::TestNdf) => 1.,
                    S(St::ResidDev | St::ResidPear) => 1. / ds.sqrt(),
                    S(St::ResidWork | St::ResidPart) => 1. / ws,
                    _ => continue,
                };
                if md(*q).is_none() {
                    continue;
                }
                if matches!(q, LrAt | S(St::LrTest | St::Deviance | St::Rss)) {
                    k.tol[i].iter_mut().for_each(|t| *t += 1e4 * k.r.eps * mag2 / ds);
                }
                // scaling y is not a change of units of the hat matrix dy_i/dy_j: invariant
                let out = versus(cx, &k, i, *q, &vals[i], |v| {
                    let mut m = map.apply(*q, v)?;
                    m = m.into_iter().map(|x| x.map(|x| x * f)).collect();
                    if add != 0. {
                        match q {
                            Coef => m[0] = m[0].map(|x| x - add / ws),
                            S(St::LooExact) => {
                                for (i, x) in m.iter_mut().enumerate() {
                                    if i % k.r.k == 0 {
                                        *x = x.map(|x| x - add / ws);
                                    }
                                }
                            }
                            S(St::WaldZ | St::PWald | St::PExact) => m[0] = None,
                            // the mean of a linear model takes up the constant
                            Mu if lin => m.iter_mut().for_each(|x| *x = x.map(|x| x - add / s)),
                            _ => {}
                        }
                    }
                    Some(m)
                });
                if let Err(Stop::Fail(w, m)) = out {
                    if ambiguous(c, &k, &d, Some(&b2)) {
                        return skip("several or irregular optima");
                    }
                    return fail(w, m);
                }
            }
        }
        _ => return skip("no coinciding family"),
    }
    cx.nontrivial = true;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}
fn lift_v(k: &Calib, qs: &[Q], q: Q) -> Result<Vec<f64>, Stop> {
    let i = qs.iter().position(|x| *x == q).unwrap();
    Ok(k.vals[i].flat())
}

const META: &[&str] = &[
    "the tolerance of every quantity is sixty times its change under offset perturbations of relative size 1e-6 (2e-3 in single precision)",
    "problems with fitted variances below 1e-4, information condition numbers above 1e5, or (non-concave families) several optima are skipped and counted",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C04", title: "standardisation is invisible", r#gen: gen04, check: check04, cases: (80000, 3_000_000), rule: "a fitted model with at least one covariate, compared between both standardisation settings", assumptions: META },
        Prop { id: "C05", title: "equivariance", r#gen: gen05, check: check05, cases: (80000, 3_000_000), rule: "a fitted model compared with its non-identity transformation", assumptions: META },
        Prop { id: "C06", title: "frequency weights", r#gen: gen06, check: check06, cases: (80000, 3_000_000), rule: "a fitted model with some frequency other than one, compared with its expansion, splitting or reduction", assumptions: META },
        Prop { id: "C07", title: "variance weights", r#gen: gen07, check: check07, cases: (80000, 3_000_000), rule: "a fitted model compared with its reweighted equivalent", assumptions: META },
        Prop { id: "C08", title: "offsets", r#gen: gen08, check: check08, cases: (100000, 3_000_000), rule: "a fitted model compared with the equivalent offset", assumptions: META },
        Prop { id: "C20", title: "precision", r#gen: gen20, check: check20, cases: (120000, 3_000_000), rule: "a model with at least one covariate fitted in both precisions", assumptions: META },
        Prop { id: "C21", title: "custom links", r#gen: gen21, check: check21, cases: (80000, 3_000_000), rule: "a model fitted with a built-in and the equivalent custom link", assumptions: META },
        Prop { id: "C22", title: "coinciding families", r#gen: gen22, check: check22, cases: (60000, 3_000_000), rule: "a model fitted in two coinciding formulations, or against its moment equations", assumptions: META },
    ]
}
