use super::*;
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;

fn gen01(r: &mut Rng) -> Case {
    let p = if r.chance(0.15) { Prof { degen: 0.3, ..Prof::default() } } else { Prof::default() };
    gen_case(r, &p)
}

/// A regular finite maximiser of the (L2-penalised) likelihood exists; the reference found it.
pub fn regular_optimum(r: &Ref) -> Option<Vec<f64>> {
    let b = r.fit()?;
    let a = r.at(&b);
    if !r.in_domain(&a) || sane(r, &a).is_err() {
        return None;
    }
    Some(b)
}

fn check01(c: &Case, cx: &mut Cx) -> R {
    let r = Ref::new(c);
    let (b, like) = lift(with_fit(c, |f| (f.result(), f.model_like())))?;
    cx.check("number of coefficients", b.len() == r.k, || format!("{} instead of {}", b.len(), r.k))?;
    let verdict = (|| -> R {
        cx.check("finite coefficients", b.iter().all(|x| x.is_finite()), || format!("{b:?}"))?;
        let a = r.at(&b);
        cx.check("feasible optimum", r.in_domain(&a), || format!("linear predictor {:?} outside the link's domain at {b:?}", a.om))?;
        let mag = 1. + r.ll_mag(&a);
        cx.close("reported likelihood", like, r.ll(&a), 50. * r.eps * mag)?;
        let Some(dec) = r.decrement(&a) else { return skip("singular information") };
        let cd = cond(&r, &a);
        if !(cd.int < 1e10 * (2.2e-16 / r.eps).sqrt()) {
            return skip("ill-conditioned design");
        }
        cx.close("distance of the likelihood from its maximum", dec, 0., 3e4 * r.eps * mag)
    })();
    if let Err(Stop::Fail(w, m)) = verdict {
        return match regular_optimum(&r) {
            Some(o) => fail(w, format!("{m} (a maximiser exists at {o:?}; library returned {b:?})")),
            None => skip("no regular maximiser exists"),
        };
    }
    verdict?;
    cx.nontrivial = r.k >= 2;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

// ---- C02 --------------------------------------------------------------------------------------
fn gen02(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { l2p: 0., l1p: 0.65, enp: 0.35, kinds: 5, pmin: 1, pmax: 5, shiftp: 0.12, ..Prof::default() });
    if c.kind >= 3 {
        // relative to the critical penalty; needs the reference
        let f = [0.05, 0.2, 0.5, 0.8, 0.95, 1.05, 1.5, 3.][r.below(8)];
        if let Some(l) = lambda_max(&c) {
            let l = if c.f32 { (l * f) as f32 as f64 } else { l * f };
            if l.is_finite() && l > 0. {
                c.l1 = l;
            }
        }
    }
    c
}
/// The smallest L1 penalty with no covariate effect.
fn lambda_max(c: &Case) -> Option<f64> {
    let r = Ref::new(c);
    let (_, b0) = r.null()?;
    let mut bi = vec![0.; r.k];
    if c.icpt {
        bi[0] = b0;
    }
    let a = r.at(&r.to_ext(&bi));
    if !r.in_domain(&a) {
        return None;
    }
    let (g, _) = r.grad_int(&a);
    let l = maxabs(&g[c.icpt as usize..]);
    l.is_finite().then_some(l)
}
/// Uncertainty of the penalty from the rounding of the standard deviations.
fn pen_tol(r: &Ref, b: &[f64]) -> f64 {
    (r.icpt as usize..r.k)
        .map(|j| {
            let rel = 10. * r.eps * (1. + maxabs(&r.x.col(j)) / r.sd[j]);
            let s = (b[j] * r.sd[j]).abs();
            rel * (r.l1 * s + r.l2 * s * s)
        })
        .sum()
}
fn check02(c: &Case, cx: &mut Cx) -> R {
    if !(c.l1 > 0.) {
        return skip("no L1 penalty");
    }
    let r = Ref::new(c);
    let (b, like) = lift(with_fit(c, |f| (f.result(), f.model_like())))?;
    cx.check("finite coefficients", b.iter().all(|x| x.is_finite()), || format!("{b:?}"))?;
    let a = r.at(&b);
    if !c.fam.concave() {
        if r.in_domain(&a) {
            cx.close("reported likelihood", like, r.ll(&a), 50. * r.eps * (1. + r.ll_mag(&a)) + pen_tol(&r, &b))?;
        }
        return skip("the likelihood may have several maxima");
    }
    let Some(o) = r.fit_l1() else { return skip("no regular maximiser exists") };
    cx.check("feasible optimum", r.in_domain(&a), || format!("linear predictor {:?} outside the link's domain at {b:?}", a.om))?;
    let mag = 1. + r.ll_mag(&a);
    cx.close("reported likelihood", like, r.ll(&a), 50. * r.eps * mag + pen_tol(&r, &b))?;
    let ao = r.at(&r.to_ext(&o));
    let cd = cond(&r, &ao);
    if !calm(&r, &ao) || !(cd.int < if c.f32 { 1e3 } else { 1e6 }) {
        return skip("ill-conditioned design or near-degenerate variance");
    }
    let (go, _) = r.grad_int(&ao);
    // the accuracy of the splitting: squared residuals below sqrt(k) * tol
    let tol = c.tol.unwrap_or(r.eps).max(r.eps);
    let del = (tol * (r.k as f64).sqrt()).sqrt();
    let h = r.fisher_int(&ao);
    let hm = maxabs(&h.a);
    let gap = r.ll(&ao) - r.ll(&a);
    cx.close("distance of the penalised likelihood from its maximum", gap, 0., 4. * del * (r.l1 * r.k as f64 + 1. + hm * del) + 200. * r.eps * mag)?;
    let bi = r.to_int(&b);
    let (g, gm) = r.grad_int(&a);
    let zero = 6. * del + 1e3 * r.eps * maxabs(&bi);
    let kk = r.kkt(&bi, &g, 10. * zero);
    let i0 = c.icpt as usize;
    for j in 0..r.k {
        let t = 60. * del * (1. + hm + r.l1) + (0.06 * del * hm * (1. + r.l1)).sqrt() + 500. * r.eps * gm[j];
        let name = if j < i0 {
            "the gradient in the intercept vanishes"
        } else if bi[j].abs() <= 10. * zero {
            "the gradient of a zero coefficient is at most the penalty"
        } else {
            "the gradient of a non-zero coefficient balances the penalty"
        };
        cx.close(name, kk[j], 0., t)?;
        if j >= i0 && o[j] == 0. && go[j].abs() < 0.99 * r.l1 && r.l1 > 1e-6f64.max(1e4 * r.eps) * (1. + gm[j]) {
            cx.close("inactive coefficients vanish", bi[j], 0., zero)?;
            // they are told from active ones only beyond the accuracy of the solver
            let clear = !c.f32 && hm < 1e4 && (i0..r.k).all(|l| (o[l] == 0. && go[l].abs() < 0.99 * r.l1) || o[l].abs() > 300. * del);
            if !clear {
                continue;
            }
            cx.check("inactive coefficients are exactly zero", b[j] == 0., || format!("coefficient {j} is {:e} (internally {:e})", b[j], bi[j]))?;
        }
    }
    let lmax = lambda_max(c);
    if let Some(l) = lmax {
        if r.l1 > 1.02 * l {
            for j in i0..r.k {
                cx.close("coefficients vanish above the critical penalty", bi[j], 0., zero)?;
            }
            cx.label("above the critical penalty");
        }
    }
    let zeros = (i0..r.k).filter(|j| o[*j] == 0.).count();
    cx.label(format!("{:?}", c.fam));
    cx.label(if zeros == 0 { "all active" } else if zeros == r.k - i0 { "none active" } else { "some active" });
    cx.label(if c.l2 > 0. { "elastic net" } else { "lasso" });
    if c.kind == 0 && !c.f32 {
        // without the penalty the same options give the unpenalised (or ridge) fit
        let mut d = c.clone();
        d.l1 = 0.;
        let r0 = Ref::new(&d);
        if let (Ok(b0), Some(o0)) = (with_fit(&d, |f| f.result()), r0.fit()) {
            let a0 = r0.at(&b0);
            if sane(&r0, &r0.at(&o0)).is_ok() && r0.in_domain(&a0) {
                if let Some(dec) = r0.decrement(&a0) {
                    cx.close("a zero penalty leaves the unpenalised fit", dec, 0., 2e3 * r0.eps * (1. + r0.ll_mag(&a0)))?;
                }
            }
        }
    }
    cx.nontrivial = true;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            title: "maximum likelihood",
            r#gen: gen01,
            check: check01,
            cases: (400_000, 6_000_000),
            rule: "a fit with at least two coefficients whose Newton decrement was judged",
            assumptions: &["problems without a regular maximiser (as found by the reference) are skipped and counted", "information condition numbers above 1e10 are not judged"],
        },
        Prop {
            id: "C02",
            title: "L1 optimality",
            r#gen: gen02,
            check: check02,
            cases: (120_000, 4_000_000),
            rule: "a successful L1 or elastic-net fit of a concave family compared with the reference optimum",
            assumptions: &["tolerances follow the solver's stopping rule: squared residuals below sqrt(k) * tol", "families with a possibly non-concave likelihood are only checked for the reported likelihood"],
        },
    ]
}
