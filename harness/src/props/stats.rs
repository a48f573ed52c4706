//! C11 likelihood-based statistics, C12 residuals, C15 leave-one-out, C16 p-values,
//! C19 prediction, C24 dispersion and degrees of freedom.
use super::*;
use crate::family::Fam;
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;
use crate::special::*;

fn ok<T>(what: &'static str, v: Result<T, LibErr>) -> Result<T, Stop> {
    v.map_err(|e| Stop::Fail(what, format!("{e:?}")))
}

/// Rounding allowance for the deviance contribution of each point (without frequencies).
pub fn dev_floor(r: &Ref, a: &At) -> Vec<f64> {
    (0..r.n)
        .map(|i| {
            if !r.live(a, i) {
                return 0.;
            }
            let e = r.fam.nat(a.om[i]);
            let part = (r.fam.ll(r.y[i], a.om[i]) - r.y[i] * e).abs();
            let sens = (a.de[i] * a.e[i]).abs() * (r.off[i].abs() + (0..r.k).map(|j| (r.x.at(i, j).abs() + r.mean[j].abs()) * a.b[j].abs()).sum::<f64>());
            300. * r.eps * r.w[i] * ((r.y[i] * e).abs() + part + r.fam.sat(r.y[i]).abs() + sens + 1e-3)
        })
        .collect()
}

fn gen11(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { l1p: 0.1, enp: 0.05, kinds: 4, ..Prof::default() });
    if (c.fam.is_pois() || c.fam.is_logistic() || c.fam.is_bin()) && r.chance(0.06) {
        // responses at the edge of their range
        let v = if c.fam.is_pois() || r.chance(0.5) { 0. } else { c.fam.bin_n() };
        c.y.iter_mut().for_each(|y| *y = v);
    }
    c
}
/// All responses at one end of their range, where the best constant model is a limit.
fn at_edge(c: &Case) -> bool {
    let f = c.fam;
    let top = if f.is_pois() { f64::INFINITY } else { f.bin_n() };
    (f.is_pois() || f.is_logistic() || f.is_bin()) && (c.y.iter().all(|y| *y == 0.) || c.y.iter().all(|y| *y == top))
}
fn check11(c: &Case, cx: &mut Cx) -> R {
    fitted(c, cx, |f, r, a, cx| {
        if c.icpt && at_edge(c) && r.in_domain(a) && r.fam != Fam::PoisSqrt {
            let nl = f.s(St::NullLike);
            let want: f64 = (0..r.n).map(|i| r.wt[i] * r.fam.sat(r.y[i])).sum();
            let tol = if c.off.is_some() { 1e-2 } else { 100. * r.eps } * (1. + r.sum_w());
            cx.close("null likelihood of responses at the edge of their range", nl, want, tol)?;
            let lr = f.s(St::LrTest);
            cx.check("likelihood ratio of responses at the edge of their range is finite", lr.is_finite(), || format!("{lr}"))?;
            cx.label("edge responses");
            cx.nontrivial = r.k >= 2 || c.weighted();
        }
        if !r.in_domain(a) || a.om.iter().any(|w| w.abs() > 1e6 * r.u_om) || !calm(r, a) {
            return skip("extreme fitted values");
        }
        let mag = 1. + r.ll_mag(a) + r.pen(&a.b).abs();
        let e = 200. * r.eps;
        let ml = f.model_like();
        cx.close("model_like is the penalised log-likelihood", ml, r.ll(a), e * mag)?;
        // likelihood anywhere
        let b = super::info::probe(c, r, &a.b, c.kind % 4);
        let p = r.at(&b);
        let edge = (0..r.n).any(|i| r.fam.domain() != 0 && p.om[i].abs() < 1e4 * r.eps * (r.off[i].abs() + (0..r.k).map(|j| (r.x.at(i, j).abs() + r.mean[j].abs()) * b[j].abs()).sum::<f64>()));
        let firm = (0..r.n).all(|i| 1e3 * r.eps * r.lin_mag(i, &b) < 1e-3 * r.u_om * if r.eps > 1e-10 { 100. } else { 1. });
        let in_dom = !edge && firm && r.in_domain(&p) && p.om.iter().all(|w| w.abs() < 500. * r.u_om) && r.ll(&p).is_finite() && r.ll_mag(&p) < 1e9 * (1. + mag);
        if in_dom && (!c.f32 || p.om.iter().all(|w| w.abs() < 50. * r.u_om)) {
            let l = f.model_like() - 0.5 * f.lr_against(&b);
            cx.close("likelihood at given parameters", l, r.ll(&p), e * (mag + r.ll_mag(&p)))?;
            cx.label("probe likelihood");
        }
        // deviance
        let fl = dev_floor(r, a);
        let tau: f64 = (0..r.n).map(|i| fl[i] * r.f[i]).sum();
        let dev = f.s(St::Deviance);
        cx.close("deviance is the sum of the unit deviances", dev, r.deviance(a), tau)?;
        cx.check("deviance is nonnegative", dev >= 0., || format!("{dev}"))?;
        cx.close("deviance is twice the gap to the saturated likelihood", dev, 2. * (r.sat_total() - (ml + r.pen(&a.b))), tau + e * (mag + r.sat_mag()))?;
        // null model
        let nl = f.s(St::NullLike);
        if let Some((want, b0)) = r.null() {
            let q = r.at(&{ let mut z = vec![0.; r.k]; if r.icpt { z[0] = b0; } z });
            let slack = if c.off.is_some() && r.icpt { if c.f32 { 3e-5 } else { 1e-11 } } else { 0. };
            if calm(r, &q) && r.in_domain(&q) {
                let t = e * (1. + r.ll_mag(&q)) + slack * (1. + r.ll_mag(&q));
                cx.close("null likelihood is the intercept-only maximum", nl, want, t)?;
                cx.close("lr_test is twice the likelihood ratio to the null model", f.s(St::LrTest), 2. * (ml - nl), e * (mag + nl.abs()))?;
                if !r.reg_any() && r.icpt && !c.f32 && cond(r, a).int < 1e9 {
                    cx.check("the fit is at least as likely as its null model", ml >= nl - 1e-9 * (mag + nl.abs()), || format!("{ml} < {nl}"))?;
                }
                if r.icpt {
                    // against the library's own likelihood at other constants
                    for s in [-0.1, 0.1] {
                        let mut z = vec![0.; r.k];
                        z[0] = b0 * (1. + s) + if r.fam.domain() == 0 { s } else { 0. };
                        let zq = r.at(&z);
                        if r.in_domain(&zq) && calm(r, &zq) {
                            let l = ml - 0.5 * f.lr_against(&z);
                            cx.check("no other constant model is more likely than the null model", l <= nl + e * (mag + r.ll_mag(&zq)) + slack * mag, || format!("{l} > {nl} at {z:?}"))?;
                        }
                    }
                }
                if c.fam == crate::family::Fam::Lin {
                    let d0 = 2. * (r.sat_total() - want);
                    let t = (tau + e * (mag + r.ll_mag(&q) + r.sat_mag()) + slack * mag) / d0;
                    if t < 1e-3 {
                        cx.close("r_sq is one minus the deviance ratio", f.s(St::RSq), 1. - r.deviance(a) / d0, 10. * t)?;
                        cx.label("r_sq");
                    }
                }
            }
        }
        if c.fam == crate::family::Fam::Lin {
            let want: f64 = (0..r.n).map(|i| r.wt[i] * a.e[i] * a.e[i]).sum();
            cx.close("rss is the weighted sum of squared residuals", f.s(St::Rss), want, tau)?;
            cx.close("rss equals the deviance of the linear model", f.s(St::Rss), dev, 2. * tau)?;
        }
        let slw: f64 = (0..r.n).map(|i| r.f[i] * r.w[i].ln()).sum();
        let slm: f64 = (0..r.n).map(|i| r.f[i] * r.w[i].ln().abs()).sum();
        cx.close("aic is the deviance plus twice the parameters less twice the log weights", f.s(St::Aic), dev + 2. * r.k as f64 - 2. * slw, e * (1. + dev + slm))?;
        if !r.reg_any() {
            let want = r.k as f64 * r.n_obs().ln() - 2. * ml - 2. * slw;
            cx.close("bic is K ln n less twice the likelihood and log weights", f.s(St::Bic), want, e * (1. + ml.abs() + slm + r.k as f64 * 10.))?;
        }
        cx.nontrivial = r.k >= 2 || c.weighted() || c.off.is_some();
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

fn gen12(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.08, enp: 0.05, ..Prof::default() })
}
fn check12(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, j, cd, cx| {
        let resp = f.v(St::ResidResp).unwrap();
        agree(cx, "response residuals are y - mu", &resp, r, a, j, |_, p| p.e.clone())?;
        let pear = f.v(St::ResidPear).unwrap();
        agree(cx, "Pearson residuals", &pear, r, a, j, |q, p| (0..q.n).map(|i| q.w[i].sqrt() * p.e[i] / p.v[i].sqrt()).collect())?;
        let work = f.v(St::ResidWork).unwrap();
        agree(cx, "working residuals", &work, r, a, j, |q, p| (0..q.n).map(|i| p.e[i] / (p.de[i] * p.v[i])).collect())?;
        let dr = f.v(St::ResidDev).unwrap();
        let fl = dev_floor(r, a);
        let dt = r.dev_terms(a);
        cx.check("one deviance residual per observation", dr.len() == r.n, || format!("{}", dr.len()))?;
        for i in (0..r.n).filter(|i| r.live(a, *i)) {
            cx.close("squared deviance residuals are the unit deviances", dr[i] * dr[i], dt[i], fl[i])?;
            if dt[i] > 4. * fl[i] {
                cx.check("deviance residuals have the sign of y - mu", dr[i].signum() == a.e[i].signum(), || format!("[{i}] {} vs {}", dr[i], a.e[i]))?;
            }
        }
        let dev = f.s(St::Deviance);
        let tot: f64 = (0..r.n).filter(|i| r.f[*i] != 0.).map(|i| r.f[i] * dr[i] * dr[i]).sum();
        cx.close("deviance residuals sum to the deviance", tot, dev, 100. * r.eps * (dev + tot) + 1e-300)?;
        // partial residuals
        let part = f.m(St::ResidPart).unwrap();
        let o = r.icpt as usize;
        cx.check("one partial residual column per covariate", part.r == r.n && part.c == c.p, || format!("{}x{}", part.r, part.c))?;
        agree(cx, "partial residuals", &part.a, r, a, j, |q, p| {
            let mut v = vec![];
            let mean: Vec<f64> = (0..c.p)
                .map(|l| if q.icpt { (0..q.n).map(|i| q.wt[i] * q.x.at(i, l + o)).sum::<f64>() / q.sum_w() } else { 0. })
                .collect();
            for i in 0..q.n {
                for l in 0..c.p {
                    v.push(p.e[i] / (p.de[i] * p.v[i]) + (q.x.at(i, l + o) - mean[l]) * p.b[l + o]);
                }
            }
            v
        })?;
        // standardised residuals, in terms of the library's own leverage and dispersion
        let lev = ok("leverage() succeeds", f.v(St::Leverage))?;
        let phi = f.s(St::Dispersion);
        let slack = 1e3 * r.eps * cd.int;
        if phi.is_finite() && phi > 1e-30 && lev.iter().all(|h| 1. - h > 10. * slack.max(1e-6)) {
            let ps = ok("resid_pear_std() succeeds", f.v(St::ResidPearStd))?;
            let ds = ok("resid_dev_std() succeeds", f.v(St::ResidDevStd))?;
            for i in (0..r.n).filter(|i| r.live(a, *i)) {
                let s = (phi * (1. - lev[i])).sqrt();
                let rel = 100. * r.eps + slack / (1. - lev[i]);
                cx.close("standardised Pearson residuals", ps[i], pear[i] / s, rel * (pear[i] / s).abs() + 1e-300)?;
                cx.close("standardised deviance residuals", ds[i], dr[i] / s, rel * (dr[i] / s).abs() + 1e-300)?;
            }
            cx.label("standardised");
        }
        // quantile residuals
        if phi.is_finite() && phi > 1e-12 {
            if let Val::V(qr) = f.stat(St::ResidQuantile, &Args::default()) {
                let et = j.tol(&a.e, |_, p| p.e.clone());
                for i in 0..r.n {
                    let tails = |y: f64, mu: f64| -> (f64, f64) {
                        if r.fam.is_lin() {
                            norm_tails((y - mu) / (phi / r.w[i]).sqrt())
                        } else if r.fam.is_exp() {
                            (-(-y / mu).exp_m1(), (-y / mu).exp())
                        } else {
                            let al = r.w[i] / phi;
                            gamma_pq(al, y * al / mu)
                        }
                    };
                    let (p, q) = tails(r.y[i], a.mu[i]);
                    if p < 1e-9 || q < 1e-9 || (r.fam.is_gam() && r.w[i] / phi > 1e6) {
                        continue;
                    }
                    let (p2, _) = norm_tails(qr[i]);
                    let (pa, _) = tails(r.y[i], a.mu[i] + et[i]);
                    let (pb, _) = tails(r.y[i], a.mu[i] - et[i]);
                    let t = (pa - p).abs() + (pb - p).abs() + 1e-8 + 1e-6 * p.min(q) + if c.f32 { 1e-4 } else { 0. };
                    cx.close("quantile residuals have the normal probability of the response", p2, p, t)?;
                }
                cx.label("quantile");
            } else {
                cx.check("quantile residuals exist for the documented families", !(c.fam.is_exp() || c.fam.is_gam() || c.fam.is_lin()), || "missing".into())?;
            }
        }
        cx.nontrivial = r.n > r.k;
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

fn gen15(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.03, enp: 0.03, extra_lo: 3, extra_hi: 12, pmax: 3, big: 0., kinds: 2, ..Prof::default() })
}
fn without(c: &Case, i: usize) -> Case {
    let mut d = c.clone();
    let mut f = d.fw.take().unwrap_or(vec![1; c.n()]);
    f[i] = 0;
    d.fw = Some(f);
    d
}
fn check15(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, j, cd, cx| {
        let lev = ok("leverage() succeeds", f.v(St::Leverage))?;
        let slack = 1e3 * r.eps * cd.int;
        let phi = f.s(St::Dispersion);
        let gap = lev.iter().map(|h| 1. - h).fold(f64::INFINITY, f64::min);
        if !(gap > 1e-3f64.max(10. * slack)) {
            return skip("an observation with full leverage");
        }
        if r.fam.free_dispersion() && (r.n_eff() <= r.k as f64 + 0.5 || !(phi > 1e-9)) {
            return skip("no residual degrees of freedom");
        }
        let pear = f.v(St::ResidPear).unwrap();
        let rel = |i: usize| 200. * r.eps + slack / (1. - lev[i]);
        let cooks = ok("cooks() succeeds", f.v(St::Cooks))?;
        for i in 0..r.n {
            let h = lev[i];
            let want = pear[i] * pear[i] * h / (r.k as f64 * phi * (1. - h) * (1. - h));
            let t = rel(i) * want.abs() + slack * pear[i] * pear[i] / (r.k as f64 * phi);
            cx.close("Cook's distances", cooks[i], want, t + 1e-300)?;
        }
        let infl = ok("infl_coef() succeeds", f.m(St::InflCoef))?;
        cx.check("one influence row per observation", infl.r == r.n && infl.c == r.k, || format!("{}x{}", infl.r, infl.c))?;
        let Some(_) = r.fisher(a).inv() else { return skip("singular information") };
        let mut extra = vec![0.; r.n * r.k];
        let amp: f64 = 1. + (0..r.k).map(|l| r.mean[l].abs() / r.sd[l]).sum::<f64>();
        for i in 0..r.n {
            let s = (0..r.k).map(|l| infl.at(i, l).abs() * if r.icpt && l == 0 { 0. } else { r.sd[l] }).fold(0f64, f64::max);
            for l in 0..r.k {
                let own = infl.at(i, l).abs();
                extra[i * r.k + l] = (0.1 * slack + 20. * r.eps * cd.ext) / (1. - lev[i]) * if r.icpt && l == 0 { own + s * amp } else { s / r.sd[l] };
            }
        }
        agree_x(cx, "influence coefficients are the one-step change", &infl.a, r, a, j, &extra, |q, p| {
            let Some(inv) = q.fisher(p).inv() else { return vec![f64::NAN; q.n * q.k] };
            let mut v = vec![];
            for i in 0..q.n {
                let z = inv.mulv(q.x.row(i));
                let h = p.v[i] * p.de[i] * p.de[i] * q.wt[i] * dot(&z, q.x.row(i));
                for l in 0..q.k {
                    v.push(z[l] * q.wt[i] * p.de[i] * p.e[i] / (1. - h));
                }
            }
            v
        })?;
        // externally studentised residuals
        let st = ok("resid_student() succeeds", f.v(St::ResidStudent))?;
        let dr = f.v(St::ResidDev).unwrap();
        let dev = f.s(St::Deviance);
        let fl = dev_floor(r, a);
        for i in (0..r.n).filter(|i| r.live(a, *i)) {
            let q = lev[i] / (1. - lev[i]);
            let num = dr[i] * dr[i] + q * (q + 2.) * pear[i] * pear[i];
            let den = if r.fam.free_dispersion() {
                let d = dev - r.f[i] * (dr[i] * dr[i] + q * pear[i] * pear[i]);
                let s = if r.has_w {
                    let v1: f64 = r.sum_w() - r.wt[i];
                    let v2: f64 = (0..r.n).map(|l| r.f[l] * r.w[l] * r.w[l]).sum::<f64>() - r.f[i] * r.w[i] * r.w[i];
                    v1 - r.k as f64 * v2 / v1
                } else {
                    r.n_obs() - r.f[i] - r.k as f64
                };
                if !(s > 0.05) || !(d > 1e-3 * dev) {
                    continue;
                }
                d / s
            } else {
                1.
            };
            let want = (num / den).sqrt();
            let t = 1e-6 * want + (10. * rel(i)).min(0.5) * want + 1e4 * r.eps.sqrt() * 1e-6 + if fl[i] > 0. { (fl[i] / den).sqrt() * 0.01 } else { 0. };
            cx.close("studentised residuals", st[i].abs(), want, t)?;
            if num > 1e3 * fl[i] {
                cx.check("studentised residuals have the sign of y - mu", st[i].signum() == a.e[i].signum(), || format!("[{i}] {} vs {}", st[i], a.e[i]))?;
            }
        }
        // exact leave-one-out by re-fitting
        if c.f32 || cd.int > 1e5 || cd.ext > 1e7 || c.x.iter().flatten().any(|v| v.abs() > 2e3) {
            cx.nontrivial = r.n > r.k + 1;
            return Ok(());
        }
        let loo = match f.m(St::LooExact) {
            Ok(m) => m,
            Err(e) => {
                // some deletion has no regular maximiser?
                for i in 0..r.n {
                    let q = Ref::new(&without(c, i));
                    if r.l1 > 0. || r.f[i] == 0. {
                        continue;
                    }
                    if super::mle::regular_optimum(&q).is_none() {
                        cx.label("leave-one-out problem without maximiser");
                        return skip("a leave-one-out problem has no regular maximiser");
                    }
                }
                let _ = e;
                return skip("leave-one-out iteration reports an error");
            }
        };
        cx.check("one row of exact coefficients per observation", loo.r == r.n && loo.c == r.k, || format!("{}x{}", loo.r, loo.c))?;
        let exact_one_step = r.fam.is_lin() && r.l1 == 0. && (r.l2 == 0. || !c.std);
        for i in 0..r.n {
            let d = without(c, i);
            if r.n_obs() - r.f[i] < r.k as f64 + 1. && r.l2 == 0. {
                continue;
            }
            let q = Ref::new(&d);
            if exact_one_step {
                for l in 0..r.k {
                    let want = a.b[l] - infl.at(i, l);
                    let z = 1e-6 * (want.abs() + a.b[l].abs() + infl.at(i, l).abs() + r.y.iter().fold(0f64, |m, y| m.max(y.abs())) / r.sd[l] * 1e-2) * (1. + cd.int.sqrt() * 1e-2);
                    let z = z * (1. + if l == 0 && r.icpt { r.mean.iter().zip(&r.sd).map(|(m, s)| m.abs() / s).sum() } else { 0. });
                    cx.close("leave-one-out is exact in one step for the linear model", loo.at(i, l), want, z)?;
                }
                cx.label("exact one step");
            }
            if r.l1 == 0. {
                if let Some(o) = super::mle::regular_optimum(&q) {
                    let qo = q.at(&o);
                    if let Ok(c2) = sane(&q, &qo) {
                        if q.fam.domain() != 0 && qo.om.iter().any(|w| w.abs() < 0.05) {
                            continue;
                        }
                        if c2.int < 1e5 && q.fam.concave() {
                            let row = q.at(loo.row(i));
                            cx.check("leave-one-out coefficients are feasible", q.in_domain(&row), || format!("{i}: {:?}", loo.row(i)))?;
                            let Some(dec) = q.decrement(&row) else { continue };
                            cx.close("leave-one-out coefficients maximise the likelihood of the other observations", dec, 0., 1e-9 * (1. + q.ll_mag(&row)))?;
                            cx.label("loo optimum");
                        }
                    }
                }
            }
        }
        // dispersion of the linear model after deletion, by re-fitting
        if r.fam.is_lin() && !r.reg_any() {
            let i = (c.aux(1).abs() * r.n as f64) as usize % r.n;
            let d = without(c, i);
            let q = Ref::new(&d);
            if q.n_eff() > q.k as f64 + 0.3 && r.f[i] > 0. {
                let got = lift(with_fit(&d, |g| (g.s(St::Dispersion), g.v(St::ResidResp))))?;
                let (ph, rr) = (got.0, lift(got.1)?);
                if ph > 1e-6 * phi && cd.int < 1e4 {
                    let want = (r.w[i] / ph).sqrt() * rr[i];
                    cx.close("studentised residuals of the linear model match re-fitting", st[i], want, 1e-5 * (1. + want.abs()))?;
                    cx.label("student by refit");
                }
            }
        }
        cx.nontrivial = r.n > r.k + 1;
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

/// Drop-one analysis under an L1 penalty, against the library's own fit of the
/// smaller problem.
fn drop_one_l1(c: &Case, f: &dyn FitApi, r: &Ref, cx: &mut Cx) -> R {
    let Ok(pe) = f.v(St::PExact) else {
        cx.label("pvalue_exact reports an error");
        return Ok(());
    };
    let (phi, df, dev) = (f.s(St::Dispersion), f.s(St::Ndf), f.s(St::Deviance));
    if r.fam.free_dispersion() && (!(df > 0.) || !(phi > 1e-6) || !phi.is_finite()) {
        return Ok(());
    }
    let sf = |x: f64| if r.fam.free_dispersion() { f_sf(x / phi, 1., df) } else { chi2_sf(x, 1.) };
    for i in r.icpt as usize..r.k {
        let d = c.drop_col(i - r.icpt as usize);
        let Ok(red) = with_fit(&d, |g| g.s(St::Deviance)) else { continue };
        let dd = red - dev;
        let tau = 1e-5 * (1. + dev.abs() + red.abs());
        let (lo, hi) = (sf(dd + tau), sf((dd - tau).max(0.)));
        cx.check("drop-one p-value is the tail of the deviance difference to the penalised fit without the covariate", pe[i] >= lo - 1e-6 && pe[i] <= hi + 1e-6, || format!("[{i}] {} not in [{lo}, {hi}]", pe[i]))?;
        cx.label("drop-one, L1");
    }
    Ok(())
}

fn gen16(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.06, enp: 0.06, pmax: 3, ..Prof::default() })
}
fn check16(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, _, cd, cx| {
        let pl = f.s(St::PLr);
        let lr = f.s(St::LrTest);
        let ndf = f.s(St::TestNdf);
        if lr.is_finite() {
            let want = if ndf == 0. { 1. } else { chi2_sf(lr, ndf) };
            cx.close("omnibus p-value is the chi-squared tail of the likelihood ratio", pl, want, 4e-7 * want + 1e-11 + 60. * r.eps)?;
            cx.check("omnibus p-value lies in [0, 1]", (0. ..=1.).contains(&pl), || format!("{pl}"))?;
        }
        let z = match f.v(St::WaldZ) {
            Ok(z) => z,
            Err(_) => return skip("covariance not available"),
        };
        let pw = ok("pvalue_wald() succeeds", f.v(St::PWald))?;
        let df = f.s(St::Ndf);
        cx.check("one Wald p-value per parameter", pw.len() == r.k, || format!("{}", pw.len()))?;
        for i in 0..r.k {
            if !z[i].is_finite() {
                continue;
            }
            let want = if !r.fam.free_dispersion() {
                2. * norm_tails(z[i].abs()).1
            } else if df > 0. {
                t_two(z[i], df)
            } else {
                cx.check("no Wald p-value without degrees of freedom", pw[i].is_nan(), || format!("{}", pw[i]))?;
                continue;
            };
            cx.close("Wald p-values are the two tails of z", pw[i], want, 1e-6 * want + 1e-11 + 20. * r.eps)?;
            cx.check("Wald p-values lie in [0, 1]", (0. ..=1. + 1e-12).contains(&pw[i]), || format!("{}", pw[i]))?;
        }
        // drop-one analysis of deviance
        if r.l1 > 0. && !c.f32 && cd.int < 1e4 && r.k >= 2 && r.fam.concave() {
            drop_one_l1(c, f, r, cx)?;
        }
        if c.f32 || cd.int > 1e6 || r.l1 > 0. || r.k < 2 {
            cx.nontrivial = r.k >= 2;
            return Ok(());
        }
        let pe = match f.v(St::PExact) {
            Ok(p) => p,
            Err(_) => {
                cx.label("pvalue_exact reports an error");
                return Ok(());
            }
        };
        let phi = f.s(St::Dispersion);
        let dev = f.s(St::Deviance);
        for i in 0..r.k {
            let mut q = Ref::new(c);
            let mut d;
            if r.icpt && i == 0 {
                if r.reg_any() {
                    continue;
                }
                d = c.clone();
                d.icpt = false;
                q = Ref::new(&d);
            } else {
                d = c.drop_col(i - r.icpt as usize);
                let keep: Vec<usize> = (0..r.k).filter(|l| *l != i).collect();
                // penalised on the scale of the full model
                let full = q;
                q = Ref::new(&d);
                q.sd = keep.iter().map(|l| full.sd[*l]).collect();
                q.mean = keep.iter().map(|l| full.mean[*l]).collect();
            }
            let Some(o) = super::mle::regular_optimum(&q) else { continue };
            let qa = q.at(&o);
            let Ok(c2) = sane(&q, &qa) else { continue };
            if c2.int > 1e6 || !q.fam.concave() {
                continue;
            }
            // is it also the library's own optimum of the reduced problem?
            let dd = q.deviance(&qa) - dev;
            let tau = 1e-8 * (1. + q.ll_mag(&qa) + r.ll_mag(a));
            let sf = |x: f64| -> f64 {
                if !r.fam.free_dispersion() {
                    chi2_sf(x, 1.)
                } else {
                    f_sf(x / phi, 1., df)
                }
            };
            if r.fam.free_dispersion() && (!(df > 0.) || !(phi > 1e-6) || !phi.is_finite()) {
                continue;
            }
            // tolerate a reduced fit within the solver's accuracy
            let (lo, hi) = (sf(dd + tau), sf((dd - tau).max(0.)));
            cx.check("drop-one p-value is the tail of the deviance difference", pe[i] >= lo - 1e-6 && pe[i] <= hi + 1e-6, || format!("[{i}] {} not in [{lo}, {hi}]", pe[i]))?;
            cx.check("drop-one p-values lie in [0, 1]", (0. ..=1.).contains(&pe[i]), || format!("{}", pe[i]))?;
            cx.label("drop-one");
            if r.fam.is_lin() && !r.reg_any() && r.n_eff() > r.k as f64 + 0.5 && (z[i] * z[i] * phi > 100. * tau) && pw[i] > 1e-9 {
                // exact t and F agree
                let t = (lo - sf(dd)).abs() + (hi - sf(dd)).abs() + 1e-6;
                cx.close("drop-one and Wald p-values agree for the linear model", pe[i], pw[i], t)?;
            }
        }
        cx.nontrivial = true;
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

fn gen19(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.1, enp: 0.1, kinds: 6, ..Prof::default() })
}
fn check19(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, j, _, cx| {
        let tx = Mat::from_rows(&c.x, c.p);
        let off = c.off.clone();
        let p = f.predict(&tx, off.as_deref(), (c.kind % 3) as u8);
        cx.check("one prediction per row", p.len() == r.n, || format!("{}", p.len()))?;
        agree(cx, "predictions on the training data are the fitted means", &p, r, a, j, |_, q| q.mu.clone())?;
        let res = f.v(St::ResidResp).unwrap();
        let fit: Vec<f64> = (0..r.n).map(|i| r.y[i] - res[i]).collect();
        let t = j.tol(&a.mu, |_, q| q.mu.clone());
        cx.close_v("predictions agree with the response residuals", &p, &fit, |i| t[i] + 10. * r.eps * r.y[i].abs())?;
        // new data: mixtures of training rows, shifted
        let m = 1 + (c.aux(0).abs() * 6.) as usize;
        let mut d = c.clone();
        d.x = (0..m)
            .map(|i| {
                (0..c.p)
                    .map(|l| {
                        let u = c.x[(i * 7 + l) % r.n][l];
                        let v = c.x[(i * 3 + 1) % r.n][l];
                        let x = u + c.aux(i + l + 1) * (u - v);
                        if c.f32 { x as f32 as f64 } else { x }
                    })
                    .collect()
            })
            .collect();
        d.off = if c.kind >= 3 { Some((0..m).map(|i| c.aux(i + 2) * if r.fam.domain() != 0 { 0.05 } else { 1. }).collect()) } else { None };
        d.y = vec![1.; m];
        d.vw = None;
        d.fw = None;
        let mut q = Ref::new(&d);
        q.mean = r.mean.clone();
        q.sd = r.sd.clone();
        let qa = q.at(&a.b);
        if q.in_domain(&qa) && qa.mu.iter().all(|x| x.abs() < 1e6) {
            let qj = {
                // same coefficients, other rows
                let mut v = Jit::new(&d, &q, &a.b);
                v.eps = r.eps;
                v
            };
            let got = f.predict(&Mat::from_rows(&d.x, c.p), d.off.as_deref(), (c.kind % 3) as u8);
            let pm = |z: &At| z.mu.clone();
            let want = pm(&qa);
            let t = qj.tol(&want, |_, z| pm(z));
            // the jitter of the new rows doesn't know the training means
            let amp: f64 = 1. + (0..r.k).map(|l| (a.b[l] * r.mean[l]).abs()).sum::<f64>();
            for i in 0..m {
                let h = 300. * r.eps * amp * (qa.v[i] * qa.de[i]).abs();
                cx.close("predictions on new data are the inverse link of the linear predictor", got[i], want[i], t[i] + h)?;
                let one = f.predict(&Mat::from_rows(&[d.x[i].clone()], c.p), d.off.as_ref().map(|o| vec![o[i]]).as_deref(), 0);
                cx.close("predictions are independent between rows", one[0], got[i], t[i] + h)?;
            }
            if d.off.is_none() {
                let z = f.predict(&Mat::from_rows(&d.x, c.p), Some(&vec![0.; m]), 0);
                cx.close_v("a zero offset is no offset", &z, &got, |i| 1e2 * r.eps * got[i].abs() + t[i])?;
            }
            cx.label(if d.off.is_some() { "new data with offset" } else { "new data" });
        }
        // far from the training data the mean saturates, and stays a mean
        {
            let far = [50., 90., 300., 700., 720., 1000., 2000.];
            let b = |i: usize| ((c.aux(i).abs() * 7.) as usize).min(6);
            let mut off = vec![far[b(3)], far[b(4)], -far[b(5)], -far[b(6)]];
            match r.fam.domain() {
                1 => off.truncate(2),
                -1 => {
                    off.remove(0);
                    off.remove(0);
                }
                _ => {}
            }
            let rows: Vec<Vec<f64>> = (0..off.len()).map(|i| c.x[i % r.n].clone()).collect();
            let got = f.predict(&Mat::from_rows(&rows, c.p), Some(&off), 0);
            let top = if c.f32 { f32::MAX as f64 } else { f64::MAX };
            for i in 0..off.len() {
                let lin = a.om[i % r.n] - r.off[i % r.n];
                let eta = lin + off[i];
                if lin.abs() > 20. || !r.fam.in_domain(eta) {
                    continue;
                }
                let amp: f64 = off[i].abs() + r.lin_mag(i % r.n, &a.b);
                let d = 100. * r.eps * amp;
                let (u, v) = (r.fam.mean(eta - d), r.fam.mean(eta + d));
                let (lo, hi) = (u.min(v), u.max(v));
                let slack = 1e-30f64.max(20. * r.eps * if r.fam.is_logistic() || r.fam.is_bin() || r.fam == Fam::Cloglog { r.fam.bin_n() } else { hi.min(top) });
                let g = got[i % got.len()];
                let ok = g >= lo.min(top) - slack && (g <= hi + slack || hi > 0.99 * top);
                cx.check("predictions far from the data are the inverse link", ok, || format!("eta {eta}: {g} not in [{lo}, {hi}]"))?;
                cx.label("far prediction");
            }
        }
        // no rows, no predictions
        cx.check("no rows give no predictions", f.predict(&Mat::zeros(0, c.p), None, 0).is_empty(), || "nonempty".into())?;
        cx.nontrivial = c.p >= 1;
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

fn gen24(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.1, enp: 0.1, vwp: 0.55, fwp: 0.5, extra_lo: 0, ..Prof::default() })
}
fn check24(c: &Case, cx: &mut Cx) -> R {
    let rr = Ref::new(c);
    let dv = lift(with_model(c, |m| m.data()))?;
    let e = 50. * rr.eps;
    cx.close("n_obs is the sum of the frequencies", dv.n_obs, rr.n_obs(), e * rr.n_obs())?;
    cx.close("n_eff is the squared sum of weights over the sum of squares", dv.n_eff, rr.n_eff(), 4. * e * rr.n_eff())?;
    cx.check("n_eff is at most n_obs", dv.n_eff <= dv.n_obs * (1. + e), || format!("{} > {}", dv.n_eff, dv.n_obs))?;
    cx.check("the response is stored as given", dv.y == c.y, || format!("{:?}", dv.y))?;
    cx.check("offsets are stored as given", dv.off == c.off, || format!("{:?}", dv.off))?;
    cx.check("variance weights are stored as given", dv.w == c.vw, || format!("{:?}", dv.w))?;
    cx.check("frequencies are stored as given", dv.f == c.fw.as_ref().map(|f| f.iter().map(|x| *x as f64).collect()), || format!("{:?}", dv.f))?;
    fitted(c, cx, |f, r, a, cx| {
        cx.close("ndf is observations less parameters", f.s(St::Ndf), r.n_obs() - r.k as f64, e * r.n_obs())?;
        cx.close("test_ndf is the number of covariates", f.s(St::TestNdf), c.p as f64, 0.)?;
        let phi = f.s(St::Dispersion);
        if !r.fam.free_dispersion() {
            cx.check("dispersion is one", phi == 1., || format!("{phi}"))?;
        } else if r.in_domain(a) && calm(r, a) {
            let left = 1. - r.k as f64 / r.n_eff();
            if left > 1e-3 {
                let fl = super::stats::dev_floor(r, a);
                let tau: f64 = (0..r.n).map(|i| fl[i] * r.f[i]).sum();
                let want = r.dispersion(a);
                let rel = 1e2 * r.eps / left;
                cx.close("dispersion is the deviance per effective degree of freedom", phi, want, rel * want + tau / (left * r.sum_w()))?;
                let dev = f.s(St::Deviance);
                let want = dev / (left * r.sum_w());
                cx.close("dispersion agrees with the reported deviance", phi, want, rel * want + 1e-300)?;
                if !r.has_w {
                    cx.close("dispersion is D / (N - K) without variance weights", phi, dev / (r.n_obs() - r.k as f64), rel * want + 1e-300)?;
                }
                cx.label("free dispersion");
                cx.nontrivial = true;
            } else if left < -1e-9 {
                // more parameters than effective observations
                cx.check("dispersion is not negative", !(phi < 0.), || format!("{phi}"))?;
                let dev = f.s(St::Deviance);
                if dev > 0. {
                    cx.check("dispersion is infinite without degrees of freedom", phi == f64::INFINITY, || format!("{phi}"))?;
                }
                cx.label("overparameterised");
                cx.nontrivial = true;
            }
        }
        cx.nontrivial |= c.weighted();
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            title: "likelihoods, deviance, null model and information criteria",
            r#gen: gen11,
            check: check11,
            cases: (200_000, 6_000_000),
            rule: "a fit in the interior of its domain with at least two parameters, weights or an offset",
            assumptions: &["bic is judged for unregularised fits only (its definition under a penalty is left open by the documentation)", "closed-form likelihoods and deviances of the harness' reference families"],
        },
        Prop {
            id: "C12",
            title: "residuals",
            r#gen: gen12,
            check: check12,
            cases: (150_000, 4_000_000),
            rule: "a well-posed fit with more observations than parameters",
            assumptions: &["quantile residuals are compared in probability between 1e-9 and 1 - 1e-9"],
        },
        Prop {
            id: "C15",
            title: "leave-one-out diagnostics",
            r#gen: gen15,
            check: check15,
            cases: (60_000, 1_500_000),
            rule: "a well-posed fit in which no observation has full leverage, with at least two more observations than parameters",
            assumptions: &["re-fitted coefficients are trusted to the solver's tolerance", "the one-step dispersion is judged where at least a thousandth of the deviance remains"],
        },
        Prop {
            id: "C16",
            title: "p-values",
            r#gen: gen16,
            check: check16,
            cases: (80_000, 2_000_000),
            rule: "a well-posed fit with at least two parameters",
            assumptions: &["drop-one tests of the intercept under a penalty are not judged", "distribution functions implemented in the harness"],
        },
        Prop {
            id: "C19",
            title: "prediction",
            r#gen: gen19,
            check: check19,
            cases: (200_000, 5_000_000),
            rule: "a well-posed fit with at least one covariate",
            assumptions: &[],
        },
        Prop {
            id: "C24",
            title: "dispersion and degrees of freedom",
            r#gen: gen24,
            check: check24,
            cases: (250_000, 8_000_000),
            rule: "a fit with weights, or of a family with free dispersion and residual degrees of freedom",
            assumptions: &[],
        },
    ]
}
