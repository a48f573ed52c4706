//! C03 convergence of well-posed problems, C18 iteration records and fit options.
use super::*;
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;

/// Spectral radius bound of the linear convergence of Fisher scoring at the optimum: the norm of
/// I - F^-1/2 H F^-1/2 with the expected information F and the observed one H.
pub fn contraction(r: &Ref, a: &At) -> Option<f64> {
    if r.fam.canonical() {
        return Some(0.);
    }
    let xi = r.x_int();
    let f = r.fisher_int(a);
    let mut g = Mat::zeros(r.k, r.k);
    for i in 0..r.n {
        if r.wt[i] == 0. {
            continue;
        }
        let w = a.om[i];
        let h = 1e-5 * ((w / r.u_om).abs().min(1.)).max(1e-3) * r.u_om;
        let s = |w: f64| (r.y[i] - r.fam.mean(w)) * r.fam.dnat(w);
        let obs = -(s(w + h) - s(w - h)) / (2. * h);
        let d = obs - a.v[i] * a.de[i] * a.de[i];
        for j in 0..r.k {
            for l in 0..r.k {
                g.add(j, l, r.wt[i] * d * xi.at(i, j) * xi.at(i, l));
            }
        }
    }
    // power iteration on F^-1 G (self-adjoint in the F inner product)
    let mut v: Vec<f64> = (0..r.k).map(|j| 1. + 0.37 * j as f64).collect();
    let mut rho = 0f64;
    for _ in 0..60 {
        let u = f.solve(&g.mulv(&v))?;
        let n = dot(&u, &f.mulv(&u)).sqrt();
        let n0 = dot(&v, &f.mulv(&v)).sqrt();
        if !(n > 0.) {
            return Some(0.);
        }
        rho = n / n0;
        v = u.iter().map(|x| x / n).collect();
    }
    rho.is_finite().then_some(rho)
}

/// Why a problem doesn't count as well-posed, if it doesn't.
pub fn well_posed(c: &Case, r: &Ref) -> Result<Vec<f64>, &'static str> {
    let Some(b) = r.fit() else { return Err("the reference finds no maximum") };
    let a = r.at(&b);
    if !r.in_domain(&a) {
        return Err("no interior maximum");
    }
    let cd = cond(r, &a);
    let (l1, l2) = if c.f32 { (50., 200.) } else { (300., 1e5) };
    if !(cd.int < l1 && cd.ext < l2) {
        return Err("ill-conditioned");
    }
    // moderate fitted values and weights of the iteration
    let (mut lo, mut hi) = (f64::INFINITY, 0f64);
    for i in (0..r.n).filter(|i| r.wt[*i] > 0.) {
        let w = r.wt[i] * a.v[i] * a.de[i] * a.de[i];
        lo = lo.min(w);
        hi = hi.max(w);
        let res = a.e[i].abs() / a.v[i].sqrt();
        if !(res < 20.) {
            return Err("an extreme residual");
        }
        if r.fam.domain() == 0 && a.om[i].abs() > 8. && !r.fam.is_lin() {
            return Err("extreme linear predictors");
        }
        if (r.fam.domain() != 0 || r.fam == Fam::PoisSqrt) && (a.om[i].abs() < 0.05 * r.u_om || a.om[i].abs() > 20. * r.u_om) {
            return Err("extreme linear predictors");
        }
    }
    if !(lo > 0. && hi / lo < if c.f32 { 1e3 } else { 1e5 }) {
        return Err("extreme weights of the observations");
    }
    let Some(inv) = r.fisher_int(&a).inv() else { return Err("ill-conditioned") };
    // every parameter is determined to a useful accuracy
    if (0..r.k).any(|j| !(inv.at(j, j) * r.u_v * r.u_de * r.u_de < 1e3 * r.sum_w().max(1.))) {
        return Err("ill-conditioned");
    }
    match contraction(r, &a) {
        Some(rho) if rho < 0.6 => {}
        _ => return Err("Fisher scoring contracts slowly"),
    }
    Ok(b)
}
use crate::family::Fam;

fn gen03(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { effect: 0.7, extra_lo: 2, shiftp: 0.12, ..Prof::default() });
    c.kind = r.below(4) as u32;
    c
}
fn check03(c: &Case, cx: &mut Cx) -> R {
    let r = Ref::new(c);
    let b = match well_posed(c, &r) {
        Ok(b) => b,
        Err(w) => return skip(w),
    };
    match with_fit(c, |f| (f.result(), f.n_iter())) {
        Ok((got, n)) => {
            cx.check("finite coefficients", got.iter().all(|x| x.is_finite()), || format!("{got:?}"))?;
            cx.check("within the iteration limit", n <= 128, || format!("{n} iterations"))?;
            cx.label(match n {
                0..=4 => "up to 4 iterations",
                5..=8 => "5 to 8 iterations",
                9..=16 => "9 to 16 iterations",
                17..=40 => "17 to 40 iterations",
                _ => "more than 40 iterations",
            });
        }
        Err(e) => {
            if !c.icpt && c.fam.domain() != 0 && !matches!(e, LibErr::MaxIter { .. }) {
                return skip("no feasible start without an intercept");
            }
            if !c.fam.concave() {
                // other stationary points may attract the iteration
                let stuck = match &e {
                    LibErr::MaxIter { hist, .. } => hist.last().is_some_and(|(h, l)| {
                        let a = r.at(h);
                        // or slow it down for most of the iterations
                        hist[hist.len() / 2].1 < l - 1e-8 * (1. + l.abs())
                            || !r.in_domain(&a) || r.decrement(&a).is_none_or(|d| !(d < 1e3 * r.eps * (1. + r.ll_mag(&a)))) || contraction(&r, &a).is_none_or(|q| q > 0.6)
                    }),
                    _ => false,
                };
                if stuck {
                    return skip("attracted elsewhere");
                }
            }
            let e = match e {
                LibErr::MaxIter { n_iter, hist } => format!("MaxIter after {n_iter} ending with {:?}", &hist[hist.len().saturating_sub(4)..]),
                e => format!("{e:?}"),
            };
            return fail("well-posed problems are solved", format!("{e} although the maximum is at {b:?}").chars().take(900).collect());
        }
    }
    cx.nontrivial = r.k >= 2;
    cx.label(format!("{:?}", c.fam));
    Ok(())
}


// ---- C18 --------------------------------------------------------------------------------------
fn gen18(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { effect: 0.7, l1p: 0.12, enp: 0.06, shiftp: 0.12, kinds: 5, ..Prof::default() });
    if c.kind == 4 {
        c.l1 = 0.;
    }
    c
}
type Hist = Vec<(Vec<f64>, f64)>;
fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
fn same_hist(a: &[(Vec<f64>, f64)], b: &[(Vec<f64>, f64)]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !bits(&x.0, &y.0) || x.1.to_bits() != y.1.to_bits() {
            return Some(format!("step {}: {:?} (likelihood {:e}) against {:?} (likelihood {:e})", i + 1, x.0, x.1, y.0, y.1));
        }
    }
    None
}
struct Rec {
    b: Vec<f64>,
    like: f64,
    n: usize,
    h: Hist,
    o: (usize, f64, f64, f64, Option<Vec<f64>>),
}
fn record(c: &Case, o: &Opts) -> Result<Rec, LibErr> {
    with_fit_opts(c, o, |f| Rec { b: f.result(), like: f.model_like(), n: f.n_iter(), h: f.history(), o: f.opt() })
}
/// A record agrees with the reference likelihood at every step, and with its own result.
fn consistent(c: &Case, r: &Ref, cx: &mut Cx, f: &Rec, init: Option<&[f64]>) -> R {
    cx.check("as many history entries as iterations", f.n == f.h.len(), || format!("{} iterations and {} entries", f.n, f.h.len()))?;
    for (i, (b, l)) in f.h.iter().enumerate() {
        cx.check("length of recorded parameters", b.len() == r.k, || format!("{} instead of {}", b.len(), r.k))?;
        let a = r.at(b);
        if !b.iter().all(|x| x.is_finite()) || !r.in_domain(&a) || !calm(r, &a) || !l.is_finite() {
            continue;
        }
        let pm: f64 = b.iter().zip(&r.sd).map(|(b, s)| (b * s).abs()).sum::<f64>() * r.l1;
        let lm = (0..r.n).map(|i| r.lin_mag(i, b)).fold(1., f64::max);
        let tol = 300. * r.eps * (1. + r.ll_mag(&a) + pm) * lm.max(1.);
        if let Err(Stop::Fail(w, m)) = cx.close("recorded likelihood of a step", *l, r.ll(&a), tol) {
            return fail(w, format!("step {}: {m}", i + 1));
        }
    }
    let best = f.h.iter().map(|h| h.1).fold(f64::NEG_INFINITY, |a, b| if b > a { b } else { a });
    if c.l1 == 0. {
        if f.h.is_empty() {
            if let Some(g) = init {
                let s: f64 = g.iter().map(|x| x.abs()).fold(0., f64::max);
                let e = 1e3 * r.eps * (1. + s) * (1. + (0..r.k).map(|j| (r.mean[j] / r.sd[j]).abs()).fold(0., f64::max));
                cx.close_v("no iterations return the guess", &f.b, g, |_| e)?;
            }
        } else {
            cx.check("the best step is returned", f.like == best, || format!("{:e} although a step has {best:e}", f.like))?;
            cx.check("the result is a recorded step", f.h.iter().any(|h| h.1 == best && bits(&h.0, &f.b)), || format!("{:?} is not among the best steps", f.b))?;
        }
        for w in f.h.windows(2) {
            cx.check("the likelihood increases along the iteration", w[1].1 > w[0].1 - 300. * r.eps * (1. + w[0].1.abs()) || !w[0].1.is_finite(), || {
                format!("from {:e} to {:e}", w[0].1, w[1].1)
            })?;
        }
    } else if best.is_finite() && f.o.1 == r.eps {
        let a = r.at(&f.b);
        cx.check("not worse than a recorded step", f.like >= best || f.like >= best - (10. * r.eps.sqrt() + 10. * r.n as f64 * f.o.1) * (1. + r.ll_mag(&a)), || format!("{:e} although a step has {best:e}", f.like))?;
    }
    Ok(())
}

fn check18(c: &Case, cx: &mut Cx) -> R {
    let r = Ref::new(c);
    let base_o = Opts { via_options: c.aux(0) > 0., ..opts(c) };
    let full = match record(c, &base_o) {
        Ok(f) => f,
        Err(LibErr::MaxIter { n_iter, hist }) => {
            cx.check("iterations of an iteration-limit error", n_iter == 128, || format!("{n_iter} with the default limit"))?;
            cx.check("history of an iteration-limit error", hist.len() == 129, || format!("{} entries", hist.len()))?;
            // a smaller limit cuts the same iteration short
            let m = 1 + ((c.aux(1) + 1.) * 20.) as usize;
            return match record(c, &Opts { max_iter: Some(m), ..base_o }) {
                Err(LibErr::MaxIter { n_iter, hist: h }) => {
                    cx.check("iterations of an iteration-limit error", n_iter == m && h.len() == m + 1, || format!("{n_iter} iterations and {} entries for a limit of {m}", h.len()))?;
                    if let Some(e) = same_hist(&h, &hist) {
                        return fail("an iteration limit only cuts the iteration short", e);
                    }
                    cx.nontrivial = true;
                    cx.label("limited non-converging");
                    Ok(())
                }
                Ok(_) => fail("an iteration limit only cuts the iteration short", format!("converges with the limit {m} but not with 128")),
                Err(e) => fail("an iteration limit only cuts the iteration short", format!("{e:?} with the limit {m}")),
            };
        }
        Err(e) => return skip(err_reason(&e)),
    };
    cx.check("recorded options", full.o.0 == 128 && full.o.2 == c.l1 && full.o.3 == c.l2 && full.o.1 == r.eps && full.o.4.is_none(), || format!("{:?}", full.o))?;
    if full.b.iter().any(|x| !x.is_finite()) {
        return skip("non-finite coefficients");
    }
    consistent(c, &r, cx, &full, None)?;
    let a = r.at(&full.b);
    let posed = r.in_domain(&a) && calm(&r, &a);
    match c.kind {
        0 => {
            // every way to ask for the defaults
            for via in [false, true] {
                let o = Opts { via_options: via, ..opts(c) };
                match record(c, &o) {
                    Ok(f) => {
                        cx.check("options and configuration agree", bits(&f.b, &full.b) && f.h.len() == full.h.len() && same_hist(&f.h, &full.h).is_none(), || {
                            format!("{:?} against {:?}", f.b, full.b)
                        })?;
                    }
                    Err(e) => return fail("options and configuration agree", format!("{e:?}")),
                }
            }
            let t = Opts { tol: Some(r.eps), max_iter: Some(128), via_options: c.aux(1) > 0., ..opts(c) };
            match record(c, &t) {
                Ok(f) => cx.check("the documented defaults", bits(&f.b, &full.b) && f.h.len() == full.h.len(), || format!("{:?} against {:?}", f.b, full.b))?,
                Err(e) => return fail("the documented defaults", format!("{e:?}")),
            }
            cx.nontrivial = true;
            cx.label("defaults");
        }
        1 | 2 => {
            // limits below, at and above the number of iterations
            let n = full.n;
            for m in [0, n / 2, n.saturating_sub(1), n, n + 1, n + 50] {
                let o = Opts { max_iter: Some(m), ..base_o.clone() };
                match record(c, &o) {
                    Ok(f) => {
                        cx.check("an iteration limit is respected", f.n <= m, || format!("{} iterations with a limit of {m}", f.n))?;
                        cx.check("a sufficient iteration limit changes nothing", m >= n && bits(&f.b, &full.b) && f.h.len() == full.h.len() && same_hist(&f.h, &full.h).is_none(), || {
                            format!("limit {m}: {} iterations to {:?} instead of {n} to {:?}", f.n, f.b, full.b)
                        })?;
                        cx.check("recorded options", f.o.0 == m, || format!("{:?}", f.o))?;
                    }
                    Err(LibErr::MaxIter { n_iter, hist }) => {
                        cx.check("an iteration limit fails only if exceeded", m < n, || format!("limit {m} for {n} iterations"))?;
                        cx.check("iterations of an iteration-limit error", n_iter == m && hist.len() == m + 1, || format!("{n_iter} iterations and {} entries for a limit of {m}", hist.len()))?;
                        if let Some(e) = same_hist(&hist, &full.h) {
                            return fail("an iteration limit only cuts the iteration short", e);
                        }
                    }
                    Err(e) => return fail("an iteration limit only cuts the iteration short", format!("{e:?} with the limit {m}")),
                }
            }
            cx.nontrivial = n >= 1;
            cx.label("limits");
        }
        3 => {
            // coarser tolerances stop the same iteration earlier
            let t = [1e-3, 1e-5, 1e-7, 1e-10, 1e-2][((c.aux(2) + 1.) * 2.49) as usize % 5];
            let t = if c.f32 { (t as f32) as f64 } else { t };
            let o = Opts { tol: Some(t), ..base_o.clone() };
            let f = match record(c, &o) {
                Ok(f) => f,
                Err(e) => return if c.l1 > 0. || well_posed(c, &r).is_err() { skip("L1 or ill-posed iteration depends on the tolerance") } else { fail("a coarser tolerance converges", format!("{e:?} with tolerance {t:e}")) },
            };
            cx.check("recorded options", f.o.1 == t, || format!("{:?}", f.o))?;
            consistent(c, &r, cx, &f, None)?;
            if c.l1 == 0. {
                if t > r.eps && well_posed(c, &r).is_ok() {
                    // until the likelihood is flat, where the step search depends on the tolerance
                    let flat = |h: &Hist| (1..h.len()).find(|i| !((h[*i].1 - h[*i - 1].1).abs() > 1e4 * r.eps * (1. + r.ll_mag(&a)))).unwrap_or(h.len());
                    let m = flat(&f.h).min(flat(&full.h));
                    for (i, (x, y)) in f.h[..m].iter().zip(&full.h[..m]).enumerate() {
                        let tol = 1e4 * r.eps * (1. + r.ll_mag(&a));
                        if let Err(Stop::Fail(w, e)) = cx.close("a coarser tolerance stops the same iteration", x.1, y.1, tol) {
                            return fail(w, format!("step {}: {e}", i + 1));
                        }
                    }
                }
                if well_posed(c, &r).is_ok() {
                    let a = r.at(&f.b);
                    if let Some(dec) = r.decrement(&a) {
                        if c.fam.concave() {
                            let tol = 20. * t * r.n as f64 + 2e3 * r.eps * (1. + r.ll_mag(&a));
                            cx.close("the likelihood is within the tolerance of its maximum", dec, 0., tol)?;
                        }
                    }
                    cx.nontrivial = true;
                    cx.label("tolerance");
                }
            }
        }
        _ => {
            // starting elsewhere
            if !posed {
                return skip("extreme fitted values");
            }
            let Ok(opt) = well_posed(c, &r) else { return skip("not well-posed") };
            let inv = r.fisher(&a).inv();
            let Some(inv) = inv else { return skip("ill-conditioned") };
            let z = [0., 0.3, 1., 2.][((c.aux(3) + 1.) * 1.99) as usize % 4];
            let g: Vec<f64> = (0..r.k)
                .map(|j| full.b[j] + z * c.aux(4 + j) * inv.at(j, j).max(0.).sqrt().min(1. / r.sd[j].max(1e-3)))
                .map(|x| if c.f32 { x as f32 as f64 } else { x })
                .collect();
            let ga = r.at(&g);
            if !r.in_domain(&ga) || !calm(&r, &ga) {
                return skip("infeasible guess");
            }
            if !r.fam.is_lin() && (0..r.n).any(|i| !((ga.om[i] - a.om[i]).abs() <= 3.)) {
                return skip("a guess too far from the optimum");
            }
            let o = Opts { init: Some(g.clone()), ..base_o.clone() };
            let f = match record(c, &o) {
                Ok(f) => f,
                Err(LibErr::MaxIter { .. }) if !c.fam.canonical() => return skip("library error: MaxIter"),
                Err(e) if z <= 0.3 || c.fam.concave() && c.fam.domain() == 0 => return fail("solvable from another guess", format!("{e:?} from {g:?}")),
                Err(e) => return skip(err_reason(&e)),
            };
            cx.check("recorded options", f.o.4.as_ref().is_some_and(|i| bits(i, &g)), || format!("{:?}", f.o))?;
            consistent(c, &r, cx, &f, Some(&g))?;
            let mag = 1. + r.ll_mag(&a);
            let lm = (0..r.n).map(|i| r.lin_mag(i, &g)).fold(1., f64::max);
            cx.check("never worse than the guess", f.like >= r.ll(&ga) - 300. * r.eps * lm * (1. + r.ll_mag(&ga)), || {
                format!("{:e} from a guess with {:e}", f.like, r.ll(&ga))
            })?;
            // a far guess may lead to the edge of a one-sided domain, from where it's hard to return
            if f.h.iter().any(|h| { let a = r.at(&h.0); !r.in_domain(&a) || !calm(&r, &a) }) {
                return skip("the iteration passes through extreme parameters");
            }
            if c.fam.concave() && (c.fam.domain() == 0 || z <= 0.3) {
                let tol = 4e3 * r.eps * mag;
                cx.close("the same optimum from another guess", f.like, full.like, tol)?;
                let fa = r.at(&f.b);
                if let Some(dec) = r.decrement(&fa) {
                    cx.close("optimal from another guess", dec, 0., tol)?;
                }
                let _ = opt;
            }
            if z == 0. && c.off.is_some() && c.icpt && r.null().is_some_and(|n| n.0.is_finite()) {
                // few iterations suffice from here, which must not limit the statistics
                let null = |o: &Opts| with_fit_opts(c, o, |f| (f.n_iter(), f.s(St::NullLike)));
                let o = Opts { max_iter: Some(f.n), ..o.clone() };
                match (null(&o), null(&base_o)) {
                    (Ok((_, v)), Ok((_, want))) => {
                        if want.is_finite() {
                            cx.close("an iteration limit that suffices leaves the null likelihood", v, want, 1e-5 * (1. + want.abs()))?;
                            cx.label("null likelihood under a limit");
                        }
                    }
                    (Err(e), _) => return fail("a sufficient iteration limit changes nothing", format!("{e:?}")),
                    _ => {}
                }
            }
            cx.nontrivial = true;
            cx.label(if z == 0. { "restarted at the optimum" } else { "other guess" });
        }
    }
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        title: "convergence",
        r#gen: gen03,
        check: check03,
        cases: (600_000, 12_000_000),
        rule: "a problem with at least two parameters certified as well-posed by the reference",
        assumptions: &[
            "well-posed: interior maximum found by the reference, condition number of the information at most 300 (50 in single precision), weights of the iteration within a factor 1e5, standardised residuals below 20, moderate linear predictors, asymptotic contraction of Fisher scoring below 0.6",
        ],
    },
    Prop {
        id: "C18",
        title: "iteration records and options",
        r#gen: gen18,
        check: check18,
        cases: (200_000, 6_000_000),
        rule: "at least one iteration under a varied limit, tolerance, guess or way to pass the options",
        assumptions: &[
            "optimality from other guesses and under coarse tolerances is only judged for problems certified as well-posed (as in C03) with a concave likelihood",
            "under an L1 penalty the iteration may depend on the tolerance, and the history need not be monotone",
        ],
    }]
}
