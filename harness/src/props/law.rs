//! C09: the links and families as functions, far beyond the values fits visit.
use super::*;
use crate::family::{ALL, BUILTIN, Fam};
use crate::rng::Rng;
use ndarray::Array1;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::{Exponential, Gamma, InvGaussian, Linear, Logistic, Poisson, exp_link, gamma_link, inv_gauss_link, logistic_link};

/// Names the default links whose modules are private.
trait HasLink {
    type L;
}
impl<L: Link<Linear<L>>> HasLink for Linear<L> {
    type L = L;
}
impl<L: Link<Poisson<L>>> HasLink for Poisson<L> {
    type L = L;
}

struct LinkFns {
    func: fn(f64) -> f64,
    inv: fn(f64) -> f64,
    nat: fn(&[f64]) -> Vec<f64>,
    dnat: fn(&[f64]) -> Vec<f64>,
    adj_e: fn(&[f64], &[f64]) -> Vec<f64>,
    adj_v: fn(&[f64], &[f64]) -> Vec<f64>,
    adj_ev: fn(&[f64], &[f64], &[f64]) -> (Vec<f64>, Vec<f64>),
}
macro_rules! fns {
    ($m:ty, $l:ty, $f:ty) => {{
        fn a(v: &[f64]) -> Array1<$f> {
            v.iter().map(|x| *x as $f).collect()
        }
        fn b(v: Array1<$f>) -> Vec<f64> {
            v.iter().map(|x| *x as f64).collect()
        }
        LinkFns {
            func: |x| <$l as Link<$m>>::func::<$f>(x as $f) as f64,
            inv: |x| <$l as Link<$m>>::func_inv::<$f>(x as $f) as f64,
            nat: |v| b(<$l as Transform>::nat_param::<$f>(a(v))),
            dnat: |v| b(<$l as Transform>::d_nat_param::<$f>(&a(v))),
            adj_e: |e, v| b(<$l as Transform>::adjust_errors::<$f>(a(e), &a(v))),
            adj_v: |e, v| b(<$l as Transform>::adjust_variance::<$f>(a(e), &a(v))),
            adj_ev: |e, w, v| {
                let (x, y) = <$l as Transform>::adjust_errors_variance::<$f>(a(e), a(w), &a(v));
                (b(x), b(y))
            },
        }
    }};
}
macro_rules! both {
    ($m:ty, $l:ty, $f32:expr) => {
        if $f32 { fns!($m, $l, f32) } else { fns!($m, $l, f64) }
    };
}
fn link_fns(f: Fam, s: bool) -> Option<LinkFns> {
    Some(match f {
        Fam::Lin => both!(Linear, <Linear as HasLink>::L, s),
        Fam::Logit => both!(Logistic, logistic_link::Logit, s),
        Fam::Cloglog => both!(Logistic<logistic_link::Cloglog>, logistic_link::Cloglog, s),
        Fam::Pois => both!(Poisson, <Poisson as HasLink>::L, s),
        Fam::ExpNeg => both!(Exponential, exp_link::NegRec, s),
        Fam::ExpLog => both!(Exponential<exp_link::Log>, exp_link::Log, s),
        Fam::GamNeg => both!(Gamma, gamma_link::NegRec, s),
        Fam::GamLog => both!(Gamma<gamma_link::Log>, gamma_link::Log, s),
        Fam::IgNeg => both!(InvGaussian, inv_gauss_link::NegRecSq, s),
        Fam::IgLog => both!(InvGaussian<inv_gauss_link::Log>, inv_gauss_link::Log, s),
        _ => return None,
    })
}

/// Linear predictors over many magnitudes, in the domain of the link.
fn draw_omega(f: Fam, single: bool, r: &mut Rng) -> f64 {
    let top = if single { 8. } else { 30. };
    let expo = f.is_logistic() || f.is_bin() || f.is_pois() && f != Fam::PoisSqrt || matches!(f, Fam::ExpLog | Fam::GamLog | Fam::IgLog);
    let w = match r.below(5) {
        0 => r.normal(),
        1 => r.sym(8.),
        2 => r.sym(if single { 30. } else { 80. }),
        3 if expo => r.sym(if single { 85. } else { 600. }),
        3 => 10f64.powf(r.sym(top)) * if r.chance(0.5) { 1. } else { -1. },
        _ => 10f64.powf(r.sym(4.)) * if r.chance(0.5) { 1. } else { -1. },
    };
    let w = if f.domain() != 0 { w.abs().max(1e-30) * f.domain() as f64 } else { w };
    if single { w as f32 as f64 } else { w }
}
fn draw_mean(f: Fam, single: bool, r: &mut Rng) -> f64 {
    let top = if single { 12. } else { 60. };
    let m = if f.is_lin() {
        10f64.powf(r.sym(top)) * if r.chance(0.5) { 1. } else { -1. }
    } else if f.is_logistic() || f.is_bin() {
        let n = f.bin_n();
        n * match r.below(3) {
            0 => r.unif(),
            1 => 10f64.powf(-r.unif() * if single { 30. } else { 250. }),
            _ => 1. - 10f64.powf(-r.unif() * if single { 6. } else { 14. }),
        }
    } else {
        match r.below(2) {
            0 => 10f64.powf(r.sym(3.)),
            _ => 10f64.powf(r.sym(top)),
        }
    };
    let m = if single { m as f32 as f64 } else { m };
    if (f.is_logistic() || f.is_bin()) && (m <= 0. || m >= f.bin_n()) { 0.5 } else { m }
}

fn gen09(r: &mut Rng) -> Case {
    let kind = r.below(2) as u32;
    let fam = *r.pick(if kind == 0 { BUILTIN } else { ALL });
    let single = r.chance(0.3);
    let mut y = if fam.is_lin() {
        r.normal() * 10f64.powf(r.sym(3.))
    } else if fam.is_logistic() {
        [0., 1., r.unif(), 1e-6, 0.5][r.below(5)]
    } else if fam.is_bin() {
        r.range(0, fam.bin_n() as usize) as f64
    } else if fam.is_pois() {
        [0., 1., 2., 17., 1000., 60000.][r.below(6)]
    } else {
        let top = [1., 1., 5., if single { 12. } else { 40. }][r.below(4)];
        10f64.powf(r.sym(top))
    };
    let ytype = if fam.is_pois() { r.below(5) as u8 } else { 0 };
    if single {
        y = y as f32 as f64;
    }
    let na = r.range(1, 6);
    let mut aux: Vec<f64> = vec![];
    for _ in 0..na {
        aux.push(draw_omega(fam, single, r));
        aux.push(draw_mean(fam, single, r));
    }
    let l2 = [0.5, 1., 2.][r.below(3)];
    Case {
        fam,
        f32: single,
        icpt: false,
        std: false,
        p: 1,
        x: vec![vec![1.]],
        y: vec![y],
        ytype,
        off: None,
        vw: None,
        fw: None,
        l1: 0.,
        l2,
        tol: None,
        max_iter: None,
        layout: 0,
        kind,
        aux,
    }
}

struct Lim {
    eps: f64,
    max: f64,
    min: f64,
}
/// Largest and smallest magnitudes that are still judged.
fn lim(c: &Case) -> Lim {
    if c.f32 { Lim { eps: c.eps(), max: 1e36, min: 1e-34 } } else { Lim { eps: c.eps(), max: 1e300, min: 1e-290 } }
}
fn repr(l: &Lim, x: f64) -> bool {
    x.abs() < l.max && (x == 0. || x.abs() > l.min)
}

/// The exponential that the link goes through, or the value itself.
fn scale(f: Fam, w: f64) -> f64 {
    if f == Fam::Cloglog && w < 0. { w.exp().max(1e-300) } else { w.exp().max(w.abs()) }
}

fn check09(c: &Case, cx: &mut Cx) -> R {
    let f = c.fam;
    let l = lim(c);
    let oms: Vec<f64> = c.aux.iter().step_by(2).copied().filter(|w| f.in_domain(*w)).collect();
    let mus: Vec<f64> = c.aux.iter().skip(1).step_by(2).copied().collect();
    if c.kind == 0 {
        let Some(k) = link_fns(f, c.f32) else { return skip("the link can't be called directly") };
        functions(f, &k, &oms, &mus, &l, cx)?;
        cx.label("link functions");
    } else {
        if !f.valid_y(c.y[0]) || oms.is_empty() {
            return skip("nothing to evaluate");
        }
        one_point(c, &oms, &l, cx)?;
        cx.label("one-point model");
    }
    cx.nontrivial = true;
    cx.label(format!("{f:?}"));
    Ok(())
}

fn functions(f: Fam, k: &LinkFns, oms: &[f64], mus: &[f64], l: &Lim, cx: &mut Cx) -> R {
    let rel = 20. * l.eps;
    let nat = (k.nat)(oms);
    let dnat = (k.dnat)(oms);
    cx.check("one natural parameter per observation", nat.len() == oms.len() && dnat.len() == oms.len(), || format!("{} and {}", nat.len(), dnat.len()))?;
    for (i, &w) in oms.iter().enumerate() {
        let (m, e, d) = (f.mean(w), f.nat(w), f.dnat(w));
        // 1/(1 + exp(-w)) etc. are accurate relative to the value, except for the upper end
        if repr(l, m) {
            cx.close("inverse link", (k.inv)(w), m, rel * m.abs() + l.min)?;
        }
        if repr(l, e) && repr(l, scale(f, w)) {
            let s = if f == Fam::Cloglog { w.exp().min(l.max) + w.abs() } else { 0. };
            cx.close("natural parameter", nat[i], e, rel * (e.abs() + s) + l.min)?;
        }
        if repr(l, d) && repr(l, scale(f, w)) {
            cx.close("derivative of the natural parameter", dnat[i], d, rel * d.abs() + l.min)?;
        }
        if w.abs() < 80. || f.domain() != 0 || f.is_lin() {
            let g = (k.inv)(w);
            let open = !(f.is_logistic() && (g <= 0. || g >= 1.) || f.positive() && !(g > 0.));
            if open && repr(l, m) && g.is_finite() {
                // error of the mean through the slope of the link
                let slope = match f {
                    Fam::Lin => 1.,
                    Fam::Logit => 1. / f.var_w(w),
                    Fam::Cloglog => 1. / ((1. - m).max(1e-300) * -(-m).ln_1p()),
                    Fam::Pois | Fam::ExpLog | Fam::GamLog | Fam::IgLog => 1. / m,
                    Fam::ExpNeg | Fam::GamNeg => 1. / (m * m),
                    _ => 1. / (m * m * m),
                };
                let tol = rel * (slope * m.abs() + w.abs() + if f.is_lin() { 0. } else { 1e-3 }) + if f.is_lin() { 0. } else { rel } * if f.domain() != 0 { 0. } else { 1. };
                if tol < 0.1 * (1. + w.abs()) {
                    cx.close("the link undoes its inverse", (k.func)(g), w, tol)?;
                }
            }
        }
        // adjustments are multiplications by the derivative
        let errs = [0.7, -1.3, 1e-3, 0.];
        for x in errs {
            if repr(l, d * d * 1e3) && repr(l, d * d * 1e-3) && repr(l, scale(f, w)) {
                let x = if l.eps > 1e-10 { x as f32 as f64 } else { x };
                let (a, b) = ((k.adj_e)(&[x], &[w]), (k.adj_v)(&[x.abs()], &[w]));
                let (a2, b2) = (k.adj_ev)(&[x], &[x.abs()], &[w]);
                cx.close("adjusted errors", a[0], x * d, 2. * rel * (x * d).abs())?;
                cx.close("adjusted variances", b[0], x.abs() * d * d, 4. * rel * (x * d * d).abs())?;
                cx.close("adjusted errors (joint)", a2[0], x * d, 2. * rel * (x * d).abs())?;
                cx.close("adjusted variances (joint)", b2[0], x.abs() * d * d, 4. * rel * (x * d * d).abs())?;
            }
        }
    }
    // monotonicity
    let mut s: Vec<usize> = (0..oms.len()).collect();
    s.sort_by(|a, b| oms[*a].total_cmp(&oms[*b]));
    for q in s.windows(2) {
        let (a, b) = (q[0], q[1]);
        let (ma, mb) = ((k.inv)(oms[a]), (k.inv)(oms[b]));
        if repr(l, f.mean(oms[a])) && repr(l, f.mean(oms[b])) {
            cx.check("the mean increases with the linear predictor", ma <= mb + rel * mb.abs(), || format!("{ma:e} at {:e} and {mb:e} at {:e}", oms[a], oms[b]))?;
        }
        if repr(l, f.nat(oms[a])) && repr(l, f.nat(oms[b])) && repr(l, scale(f, oms[a])) && repr(l, scale(f, oms[b])) {
            let t = if f == Fam::Cloglog { oms[b].exp() + oms[b].abs() } else { 0. };
            cx.check("the natural parameter increases with the linear predictor", nat[a] <= nat[b] + rel * (nat[b].abs() + t), || {
                format!("{:e} at {:e} and {:e} at {:e}", nat[a], oms[a], nat[b], oms[b])
            })?;
        }
    }
    for &m in mus {
        if !f.is_lin() && !(m > 0.) || f.is_logistic() && m >= 1. {
            continue;
        }
        let w = f.link(m);
        if !repr(l, w) || !repr(l, m) {
            continue;
        }
        let g = (k.func)(m);
        let logs = f.is_logistic() || matches!(f, Fam::Pois | Fam::ExpLog | Fam::GamLog | Fam::IgLog);
        let cond = if f == Fam::Logit || f == Fam::Cloglog { 1. } else { 0. };
        cx.close("link", g, w, rel * (w.abs() + cond * 1. + if logs { 1. } else { 0. }) + l.min)?;
        let back = (k.inv)(g);
        // the slope of the inverse link times the error of the linear predictor
        let t = match f {
            Fam::Lin => m.abs(),
            Fam::Logit => m.max(m * (1. - m) * (w.abs() + 1.)),
            Fam::Cloglog => m.max((1. - m) * -(-m).ln_1p() * (w.abs() + 1.)),
            Fam::Pois | Fam::ExpLog | Fam::GamLog | Fam::IgLog => m * (1. + w.abs()),
            _ => m,
        };
        cx.close("the inverse undoes the link", back, m, 2. * rel * t + l.min)?;
    }
    Ok(())
}

fn one_point(c: &Case, oms: &[f64], l: &Lim, cx: &mut Cx) -> R {
    let f = c.fam;
    let y = c.y[0];
    let r = Ref::new(c);
    lift(with_fit(c, |q| {
        let b = q.result();
        if !b[0].is_finite() || !f.in_domain(b[0]) {
            return skip("no optimum in the domain");
        }
        let ml = q.model_like();
        let rel = 30. * l.eps;
        let mut best = f64::NEG_INFINITY;
        let mut any = false;
        for &w in oms {
            let (m, v, d, e) = (f.mean(w), f.var_w(w), f.dnat(w), f.nat(w));
            // predictions
            if repr(l, m) {
                let g = q.predict(&Mat { r: 1, c: 1, a: vec![0.] }, Some(&[w]), 0);
                let aff = if f == Fam::LinAffine { w.abs() + 4. } else { 0. };
                cx.close("mean", g[0], m, rel * (m.abs() + aff) + l.min)?;
            }
            // likelihood
            let pen = 0.5 * c.l2 * w * w;
            let ll = f.ll(y, w);
            if !ll.is_finite() || !repr(l, e) || !repr(l, m) || !repr(l, pen) {
                continue;
            }
            let mag = (y * e).abs() + (ll - y * e).abs() + pen + ml.abs();
            // through the natural parameter
            let en = match f {
                Fam::Cloglog => w.exp().min(1e300) + w.abs(),
                Fam::LinAffine => w.abs() + 4.,
                _ => e.abs(),
            };
            let lam = (y - m).abs() * en + if f.is_lin() { m * m + e * e } else { 0. };
            if (mag + lam) < l.max * 1e-3 && repr(l, scale(f, w)) {
                let got = ml - 0.5 * q.lr_against(&[w]) + pen;
                cx.close("log-likelihood", got, ll, rel * (mag + lam + 1.))?;
                best = best.max(got - rel * (mag + lam + 1.));
                any = true;
            }
            // information and score
            let i = v * d * d;
            if repr(l, i) && repr(l, v) && repr(l, d * d) && repr(l, m * m) && repr(l, m * m * m) && repr(l, scale(f, w)) {
                let n = f.bin_n();
                // mu (N - mu) / N at the end of the range
                let ends = if f.is_bin() || f.is_logistic() { m * l.eps * 4. * d * d * n.max(1.) } else { 0. };
                let fi = q.fisher(&[w]);
                cx.close("information", fi.at(0, 0) - c.l2, i, rel * (i + c.l2) + ends)?;
                let sc = (y - m) * d;
                let s = q.score(&[w]);
                let aff = if f == Fam::LinAffine { w.abs() + 4. } else { 0. };
                cx.close("score", s[0] + c.l2 * w, sc, rel * ((y.abs() + m.abs() + aff) * d.abs() + c.l2 * w.abs()) + ends)?;
            }
        }
        // the saturated likelihood
        let dev = q.s(St::Deviance);
        let w = b[0];
        let pen = 0.5 * c.l2 * w * w;
        let sat = 0.5 * dev + ml + pen;
        let want = f.sat(y);
        if want.is_finite() && ml.is_finite() && calm(&r, &r.at(&b)) {
            let a = r.at(&b);
            let tol = rel * (1. + want.abs() + r.ll_mag(&a) + pen + ml.abs() + dev.abs());
            cx.close("saturated likelihood", sat, want, tol)?;
            cx.check("the saturated likelihood bounds the likelihood", !(best > sat + tol + rel * best.abs()), || format!("{best:e} > {sat:e}"))?;
        }
        cx.nontrivial = any;
        Ok(())
    }))?
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09",
        title: "links and families",
        r#gen: gen09,
        check: check09,
        cases: (3_000_000, 60_000_000),
        rule: "at least one function evaluated in the domain and compared with its closed form",
        assumptions: &[
            "values beyond 1e300 or below 1e-290 (1e36 and 1e-34 in single precision), or computed through such values, are not judged",
            "the custom links are part of the harness; only their families are judged",
        ],
    }]
}
