//! C10 score and Fisher information, C13 hat matrix, C14 covariance, C26 quadratic-form tests.
use super::*;
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;

fn gen10(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.1, enp: 0.1, kinds: 4, ..Prof::default() })
}

/// Parameter vectors around the fit, at null-like values and away from both.
pub fn probe(c: &Case, r: &Ref, b: &[f64], which: u32) -> Vec<f64> {
    let step = |s: f64| -> Vec<f64> {
        let bi = r.to_int(b);
        let mut d: Vec<f64> = (0..r.k).map(|j| bi[j] + s * c.aux(j)).collect();
        if r.icpt && r.fam.domain() != 0 {
            d[0] = bi[0] * (1. + 0.3 * s * c.aux(0));
        }
        r.to_ext(&d)
    };
    match which {
        0 => b.to_vec(),
        1 => step(0.2),
        2 => step(1.),
        _ => {
            let mut z = vec![0.; r.k];
            if r.icpt {
                z[0] = match r.fam.domain() {
                    0 => c.aux(0),
                    s => s as f64 * (0.2 + c.aux(0).abs()),
                };
            }
            z
        }
    }
}

fn check10(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a0, _, _, cx| {
        let b = probe(c, r, &a0.b, c.kind % 4);
        let a = r.at(&b);
        if !r.in_domain(&a) || !calm(r, &a) {
            return skip("probe outside the link's domain or with degenerate variance");
        }
        let j = Jit::new(c, r, &b);
        let s = f.score(&b);
        let want = r.score(&a);
        let mut tol = j.tol(&want, |q, p| q.score(p));
        let mag = r.score_mag(&a);
        for i in 0..r.k {
            tol[i] += 200. * r.eps * mag[i];
        }
        // the subgradient at zero is not unique
        let pinned = |i: usize| r.l1 > 0. && b[i].abs() * r.sd[i] < 1e-6;
        for i in 0..r.k {
            if !pinned(i) {
                cx.close("score is the gradient of the penalised likelihood", s[i], want[i], tol[i])?;
            }
        }
        let fi = f.fisher(&b);
        agree(cx, "Fisher information is the expected curvature", &fi.a, r, &a, &j, |q, p| q.fisher(p).a)?;
        // symmetric, positive semidefinite
        let m = fi.maxabs();
        for i in 0..r.k {
            for l in 0..i {
                let mag: f64 = (0..r.n)
                    .map(|q| r.wt[q] * a.v[q] * a.de[q] * a.de[q] * (r.x.at(q, i).abs() + 2. * r.mean[i].abs()) * (r.x.at(q, l).abs() + 2. * r.mean[l].abs()))
                    .sum();
                cx.close("Fisher information is symmetric", fi.at(i, l), fi.at(l, i), 1e3 * r.eps * mag + 1e-300)?;
            }
            cx.check("Fisher information has a nonnegative diagonal", fi.at(i, i) >= 0., || format!("{:?}", fi.diag()))?;
        }
        // Library against itself: central difference of its own likelihood along a direction.
        if !c.f32 {
            let d: Vec<f64> = {
                let z: Vec<f64> = (0..r.k).map(|i| if i == 0 && r.icpt { 0.5 + c.aux(i + 3) } else { c.aux(i + 3) / r.sd[i] }).collect();
                z
            };
            let dm = maxabs(&(0..r.n).map(|i| dot(r.x.row(i), &d)).collect::<Vec<_>>());
            let wmin = match r.fam.domain() {
                0 => r.u_om,
                _ => a.om.iter().fold(f64::INFINITY, |m, w| m.min(w.abs())),
            };
            if dm > 0. && r.l1 == 0. {
                let h = 1e-4 * wmin.min(r.u_om) / dm;
                let at = |t: f64| -> Vec<f64> { (0..r.k).map(|i| b[i] + t * h * d[i]).collect() };
                let l = |t: f64| -0.5 * f.lr_against(&at(t));
                let (lp, lm) = (l(1.), l(-1.));
                let num = (lp - lm) / (2. * h);
                let third = (l(2.) - 2. * lp + 2. * lm - l(-2.)).abs() / (2. * h);
                let lmag = 1. + r.ll_mag(&a);
                let tol = 1e-10 * lmag / h * 1e-2 + third + 1e-6 * (0..r.k).map(|i| (mag[i] * d[i]).abs()).sum::<f64>() + 100. * r.eps * lmag / h;
                cx.close("score agrees with differences of the library's own likelihood", dot(&s, &d), num, tol)?;
                if r.fam.canonical() {
                    let sp = f.score(&at(1.));
                    let sm = f.score(&at(-1.));
                    let fd = fi.mulv(&d);
                    for i in 0..r.k {
                        let num = -(sp[i] - sm[i]) / (2. * h);
                        let s2 = f.score(&at(2.));
                        let s3 = f.score(&at(-2.));
                        let third = (s2[i] - 2. * sp[i] + 2. * sm[i] - s3[i]).abs() / (2. * h);
                        let tol = third + 300. * r.eps * mag[i] / h + 1e-5 * (0..r.k).map(|l| (fi.at(i, l) * d[l]).abs()).sum::<f64>();
                        cx.close("canonical Fisher information is the derivative of the library's own score", fd[i], num, tol)?;
                    }
                }
            }
        }
        cx.nontrivial = r.k >= 2 && (c.std || c.weighted() || r.l2 > 0.);
        cx.label(format!("probe {}", c.kind % 4));
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

fn gen13(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.05, enp: 0.05, kinds: 3, big: 0., ..Prof::default() })
}
pub fn hat_ref(q: &Ref, p: &At) -> Option<Mat> {
    let inv = q.fisher(p).inv()?;
    let mut h = Mat::zeros(q.n, q.n);
    for i in 0..q.n {
        let z = inv.mulv(q.x.row(i));
        for l in 0..q.n {
            h.set(i, l, p.v[i] * p.de[i] * dot(&z, q.x.row(l)) * q.wt[l] * p.de[l]);
        }
    }
    Some(h)
}
fn check13(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, j, cd, cx| {
        let hm = f.m(St::Hat).map_err(|e| Stop::Fail("hat() succeeds", format!("{e:?}")))?;
        cx.check("hat is n by n", hm.r == r.n && hm.c == r.n, || format!("{}x{}", hm.r, hm.c))?;
        let lev = f.v(St::Leverage).map_err(|e| Stop::Fail("leverage() succeeds", format!("{e:?}")))?;
        cx.check("leverage is the diagonal of hat", lev == hm.diag(), || format!("{lev:?} {:?}", hm.diag()))?;
        let Some(_) = hat_ref(r, a) else { return skip("singular information") };
        let ex = vec![5e3 * r.eps * cd.int * (1. + hm.maxabs()); r.n * r.n];
        agree_x(cx, "hat matrix entries", &hm.a, r, a, j, &ex, |q, p| hat_ref(q, p).map_or(vec![f64::NAN; q.n * q.n], |m| m.a))?;
        let t = 1e3 * r.eps * cd.int.max(1.) * (r.k as f64) * (1. + hm.maxabs());
        if t < 1e-2 {
            let tr: f64 = lev.iter().sum();
            for h in &lev {
                cx.check("leverages lie in [0, 1]", *h >= -t && *h <= 1. + t, || format!("{lev:?}"))?;
            }
            if r.l2 == 0. {
                cx.close("leverages sum to the number of parameters", tr, r.k as f64, t * r.n as f64)?;
                let hh = hm.mul(&hm);
                for i in 0..r.n {
                    for l in 0..r.n {
                        cx.close("the hat matrix is a projection", hh.at(i, l), hm.at(i, l), t * r.n as f64 * (1. + hm.maxabs()))?;
                    }
                }
                // orthogonal to the residuals at the maximum
                if r.l1 == 0. && !c.f32 {
                    let res = f.v(St::ResidResp).unwrap();
                    let z = hm.mulv(&res);
                    let big = maxabs(&res).max(1e-3) * hm.maxabs().max(1.);
                    for i in 0..r.n {
                        let scale = (a.v[i] * a.de[i]).abs() * (1. + r.wt.iter().cloned().fold(0., f64::max));
                        cx.close("the hat matrix annihilates the residuals", z[i], 0., 3e-4 * cd.int.sqrt().min(1e3) * (big + scale))?;
                    }
                }
            } else {
                cx.check("penalised effective degrees of freedom", tr <= r.k as f64 + t * r.n as f64, || format!("{tr} > {}", r.k))?;
            }
        }
        // dy_hat/dy by refitting, where the response is continuous and the link canonical
        if c.kind == 1 && !c.f32 && r.l1 == 0. && r.fam.canonical() && (r.fam.is_lin() || r.fam.positive()) && cd.int < 1e5 {
            let l = (c.aux(0).abs() * r.n as f64) as usize % r.n;
            let h = 1e-4 * (if r.fam.is_lin() { 1f64 } else { c.y[l].min(a.mu[l]) });
            let refit = |s: f64| -> Result<Vec<f64>, Stop> {
                let mut d = c.clone();
                d.ytype = 0;
                d.y[l] += s * h;
                lift(with_fit(&d, |g| { let b = g.result(); r.at(&b).mu }))
            };
            let (p1, m1, p2, m2) = (refit(1.)?, refit(-1.)?, refit(2.)?, refit(-2.)?);
            for i in 0..r.n {
                let num = (p1[i] - m1[i]) / (2. * h);
                let third = (p2[i] - 2. * p1[i] + 2. * m1[i] - m2[i]).abs() / (2. * h);
                let opt_err = 3e-7 * cd.int.sqrt() * (a.v[i].sqrt() * a.de[i].abs()) / h * (1e-16f64 * (1. + r.ll_mag(a))).sqrt().max(1e-9) * 1e3;
                cx.close("hat is the derivative of the fitted values", hm.at(i, l), num, 4e-3 * (1. + hm.maxabs()) + 10. * third + opt_err)?;
            }
            cx.label("refit derivative");
        }
        cx.nontrivial = r.k >= 2 && r.n > r.k;
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

pub fn cov_ref(q: &Ref, p: &At, phi: f64) -> Option<Mat> {
    let inv = q.fisher(p).inv()?;
    Some(inv.mul(&q.fisher_data(p)).mul(&inv).scale(phi))
}
fn gen14(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.1, enp: 0.1, ..Prof::default() })
}
fn check14(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a, j, cd, cx| {
        if r.fam.free_dispersion() && r.n_eff() <= r.k as f64 * 1.0001 {
            return skip("no residual degrees of freedom");
        }
        let phi = f.s(St::Dispersion);
        if !(phi > 1e-9 * r.eps.sqrt() * 1e8 && phi < 1e9) {
            return skip("vanishing dispersion");
        }
        let cov = f.m(St::Cov).map_err(|e| Stop::Fail("covariance() succeeds", format!("{e:?}")))?;
        let Some(inv) = r.fisher(a).inv() else {
            return skip("singular information");
        };
        let t = 5e3 * r.eps * cd.ext * cd.ext;
        if t > 0.05 {
            return skip("covariance too sensitive to rounding");
        }
        let ex: Vec<f64> = (0..r.k * r.k).map(|q| t * phi * (inv.at(q / r.k, q / r.k) * inv.at(q % r.k, q % r.k)).abs().sqrt()).collect();
        agree_x(cx, "covariance is the sandwich estimate", &cov.a, r, a, j, &ex, |q, p| cov_ref(q, p, phi).map_or(vec![f64::NAN; q.k * q.k], |m| m.a))?;
        // library against itself
        if !r.reg_any() {
            let fi = f.fisher(&a.b);
            let prod = fi.mul(&cov);
            let sc = |i: usize| fi.at(i, i).abs().sqrt();
            for i in 0..r.k {
                for l in 0..r.k {
                    let want = if i == l { phi } else { 0. };
                    // the sandwich applies the inverse twice
                    let t = 1e4 * r.eps * cd.ext * cd.ext * phi * (sc(i) / sc(l)).max(1e-300);
                    if t < 0.01 * phi * sc(i) / sc(l) {
                        cx.close("covariance times information is the dispersion", prod.at(i, l), want, t)?;
                    }
                }
            }
        }
        {
            for i in 0..r.k {
                cx.check("variances are nonnegative", cov.at(i, i) >= -t * phi * inv.at(i, i).abs(), || format!("{:?}", cov.diag()))?;
                for l in 0..i {
                    let s = phi * (inv.at(i, i) * inv.at(l, l)).abs().sqrt();
                    cx.close("covariance is symmetric", cov.at(i, l), cov.at(l, i), 10. * t * s)?;
                    cx.check("correlations are at most one", cov.at(i, l).abs() <= (cov.at(i, i) * cov.at(l, l)).abs().sqrt() + 2. * s * t.sqrt(), || format!("{} {}", cov.at(i, l), s))?;
                }
            }
        }
        let z = f.v(St::WaldZ).map_err(|e| Stop::Fail("wald_z() succeeds", format!("{e:?}")))?;
        for i in 0..r.k {
            if !(cov.at(i, i) > 0.) {
                continue;
            }
            let want = a.b[i] / cov.at(i, i).sqrt();
            cx.close("wald_z is estimate over standard error", z[i], want, 50. * r.eps * want.abs() + 1e-300)?;
        }
        cx.nontrivial = r.k >= 2;
        cx.label(format!("{:?}", c.fam));
        cx.label(if r.reg_any() { "regularised" } else { "unregularised" });
        Ok(())
    })
}

fn gen26(r: &mut Rng) -> Case {
    gen_case(r, &Prof { l1p: 0.05, enp: 0.05, kinds: 4, pmin: 1, ..Prof::default() })
}
fn check26(c: &Case, cx: &mut Cx) -> R {
    base(c, cx, |f, r, a0, _, _, cx| {
        let null = c.kind == 3;
        let b = if null {
            let Some((_, b0)) = r.null() else { return skip("no regular null model") };
            let mut z = vec![0.; r.k];
            if r.icpt {
                z[0] = b0;
            }
            z
        } else {
            probe(c, r, &a0.b, c.kind)
        };
        let a = r.at(&b);
        if !r.in_domain(&a) || !calm(r, &a) {
            return skip("probe outside the link's domain or with degenerate variance");
        }
        let cd = cond(r, &a);
        if !(cd.int < if c.f32 { 1e4 } else { 1e8 } && cd.ext < if c.f32 { 1e4 } else { 1e9 }) {
            return skip("ill-conditioned information at the alternative");
        }
        if r.l1 > 0. && (0..r.k).any(|j| b[j] != 0. && b[j].abs() * r.sd[j] < 1e-5) {
            return skip("subgradient at zero");
        }
        let b_hat = &a0.b;
        let j = Jit::new(c, r, &b);
        let (w, s, lr) = if null {
            let Val::S(s) = f.stat(St::ScoreTest, &Args::default()) else { return fail("score_test() succeeds", String::new()) };
            (f.s(St::WaldTest), s, f.s(St::LrTest))
        } else {
            let Val::S(w) = f.at(St::WaldAgainst, &b) else { panic!("HARNESS") };
            let s = match f.at(St::ScoreAgainst, &b) {
                Val::S(s) => s,
                o => return fail("score_test_against() succeeds", format!("{o:?}")),
            };
            (w, s, f.lr_against(&b))
        };
        // the null model's intercept is only optimised to the solver's tolerance
        let slack = if null && r.icpt { if c.off.is_some() { 3e-6 } else { 3e-8 } } else { 0. };
        let slack = if c.f32 && slack > 0. { 1e-2 } else { slack };
        // Wald: differences taken in the internal basis
        let di = sub(&r.to_int(b_hat), &r.to_int(&b));
        let fint = r.fisher_int(&a);
        let want = dot(&di, &fint.mulv(&di));
        let jt = j.tol(&[want], |q, p| {
            let di = sub(&q.to_int(b_hat), &q.to_int(&p.b));
            vec![dot(&di, &q.fisher_int(p).mulv(&di))]
        })[0];
        let tr: f64 = (0..r.k).map(|i| fint.at(i, i)).sum();
        let del = 200. * r.eps * (0..r.k).map(|i| (b_hat[i].abs() + b[i].abs()) * (r.mean[i].abs() + r.sd[i])).fold(0., f64::max);
        let jt = jt + 2. * (want * tr).sqrt() * del + tr * del * del;
        let wslack = slack * (1. + want + (tr * want).sqrt() + tr * slack);
        cx.close("Wald statistic is (b - b0)' I(b0) (b - b0)", w, want, jt + wslack)?;
        cx.check("Wald statistic is nonnegative", w >= -jt - wslack, || format!("{w}"))?;
        let sc = |q: &Ref, p: &At| -> Vec<f64> {
            let g = q.score(p);
            match q.fisher(p).solve(&g) {
                Some(z) => vec![dot(&g, &z)],
                None => vec![f64::NAN],
            }
        };
        let want = sc(r, &a)[0];
        let jt = j.tol(&[want], |q, p| sc(q, p))[0];
        let mag = r.score_mag(&a);
        let mut extra = 0.;
        if let Some(inv) = r.fisher(&a).inv() {
            let e: f64 = (0..r.k).map(|i| (inv.at(i, i).abs()).sqrt() * mag[i]).sum::<f64>() * r.eps * 100.;
            extra = 2. * e * want.max(0.).sqrt() + e * e + 20. * r.eps * cond(r, &a).int * want.abs();
        }
        let ss = slack * (1. + want + (tr * want.abs()).sqrt() + tr * slack);
        if !(jt + extra).is_finite() {
            return skip("reference value too sensitive");
        }
        cx.close("score statistic is J' I^-1 J", s, want, jt + extra + ss)?;
        cx.check("score statistic is nonnegative", s >= -(jt + extra + ss), || format!("{s}"))?;
        let want = 2. * (r.ll(a0) - if null { r.ll_data(&a) } else { r.ll(&a) });
        let t = 200. * r.eps * (1. + r.ll_mag(a0) + r.ll_mag(&a)) + if null { slack } else { 0. };
        cx.close("likelihood ratio is twice the likelihood difference", lr, want, t)?;
        if r.fam.is_lin() && !r.reg_any() && !c.f32 {
            // the three statistics coincide for a quadratic likelihood
            let t = 1e-6 * (1. + lr.abs()) + jt + extra + 1e3 * r.eps * (r.ll_mag(a0) + r.ll_mag(&a));
            cx.close("Wald equals likelihood ratio for the linear model", w, lr, t + wslack)?;
            cx.close("score equals likelihood ratio for the linear model", s, lr, t + ss)?;
        }
        cx.nontrivial = r.k >= 2;
        cx.label(if null { "null" } else { "alternative" });
        cx.label(format!("{:?}", c.fam));
        Ok(())
    })
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            title: "score and Fisher information",
            r#gen: gen10,
            check: check10,
            cases: (150_000, 4_000_000),
            rule: "a well-posed fit with at least two parameters and standardisation, weights or a ridge penalty in play; the probe is the fit itself, a point near it, a point far from it, or a null-like point",
            assumptions: &["closed-form likelihoods of the harness' reference families", "the subgradient of |b| at b = 0 is not judged"],
        },
        Prop {
            id: "C13",
            title: "hat matrix",
            r#gen: gen13,
            check: check13,
            cases: (120_000, 3_000_000),
            rule: "a well-posed fit with at least two parameters and more observations than parameters",
            assumptions: &["derivatives by refitting are compared to 1e-4 and only for continuous responses with canonical links"],
        },
        Prop {
            id: "C14",
            title: "covariance",
            r#gen: gen14,
            check: check14,
            cases: (200_000, 5_000_000),
            rule: "a well-posed fit with at least two parameters, residual degrees of freedom and nonvanishing dispersion",
            assumptions: &["the library's own dispersion is used here; C24 decides it"],
        },
        Prop {
            id: "C26",
            title: "Wald, score and likelihood-ratio statistics",
            r#gen: gen26,
            check: check26,
            cases: (150_000, 4_000_000),
            rule: "a well-posed fit with at least two parameters compared against the null model or against other in-domain parameters",
            assumptions: &["null-model intercepts are trusted to the solver's tolerance (1e-8 without offsets, 1e-6 with)"],
        },
    ]
}
