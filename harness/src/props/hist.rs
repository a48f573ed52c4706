//! C17 validation of inputs, C23 independence of the call history, C25 no panics.
use super::*;
use crate::family::{ALL, BUILTIN, Fam};
use crate::gen_::{Prof, gen_case};
use crate::rng::Rng;

// ---- C17 --------------------------------------------------------------------------------------

/// Bits of `kind`: which faults are injected.
const BAD_Y: u32 = 1;
const LEN_X: u32 = 2;
const LEN_OFF: u32 = 4;
const LEN_VW: u32 = 8;
const LEN_FW: u32 = 16;
const TWICE: u32 = 32;

fn bad_y(f: Fam, r: &mut Rng) -> Option<f64> {
    let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    if f.is_logistic() {
        Some(match r.below(4) {
            0 => *r.pick(&odd),
            1 => [-1., 2., -0.1, 1.1, 1. + 1e-6, -1e-6, 1e30, -1e30][r.below(8)],
            2 => -(10f64.powf(-30. * r.unif())),
            _ => 1. + 10f64.powf(3. * r.sym(1.) - 3.),
        })
    } else if f.is_bin() {
        let n = f.bin_n();
        Some(match r.below(3) {
            0 => n + 1.,
            1 => 65535.,
            _ => n + 1. + r.below(1000) as f64,
        })
    } else if f.positive() {
        Some(match r.below(4) {
            0 => *r.pick(&odd),
            1 => 0.,
            2 => -0.,
            _ => -(10f64.powf(r.sym(30.))),
        })
    } else {
        None
    }
}
/// Valid responses at the edges of the domain.
fn edge_y(f: Fam, r: &mut Rng) -> f64 {
    if f.is_lin() {
        [0., -0., 1e30, -1e30, 1e-30, 12345.678][r.below(6)]
    } else if f.is_logistic() {
        [0., 1., -0., 1e-30, 1. - 1e-7f32 as f64, 0.5][r.below(6)]
    } else if f.is_pois() {
        [0., 1., 255., 65535.][r.below(4)]
    } else if f.is_bin() {
        [0., f.bin_n()][r.below(2)]
    } else {
        [1e-30, 1e30, 1., 1e-3][r.below(4)]
    }
}

fn gen17(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { extra_lo: 0, degen: 0.1, fams: ALL, ..Prof::default() });
    c.aux.truncate(4);
    for i in 0..c.n() {
        if r.chance(0.15) {
            c.y[i] = edge_y(c.fam, r);
        }
    }
    c.kind = 0;
    let faults = [0, 0, 1, 1, 1, 1, 2][r.below(7)];
    for _ in 0..faults {
        let k = 1 << r.below(6);
        c.kind |= k;
    }
    if c.kind & BAD_Y != 0 {
        let k = 1 + r.below(2);
        for _ in 0..k {
            let i = [0, c.n() - 1, r.below(c.n())][r.below(3)];
            match bad_y(c.fam, r) {
                Some(y) => c.y[i] = y,
                None => {
                    c.kind &= !BAD_Y;
                    break;
                }
            }
        }
    }
    let len = |n: usize, r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => 2 * n,
        4 => 1,
        _ => n + r.below(5),
    };
    if c.kind & LEN_X != 0 {
        let m = len(c.n(), r);
        let row = |r: &mut Rng| (0..c.p).map(|_| r.sym(1.).round()).collect::<Vec<f64>>();
        c.x = (0..m).map(|_| row(r)).collect();
    }
    if c.kind & LEN_OFF != 0 {
        c.off = Some(vec![0.25; len(c.n(), r)]);
    }
    if c.kind & LEN_VW != 0 {
        c.vw = Some(vec![1.5; len(c.n(), r)]);
    }
    if c.kind & LEN_FW != 0 {
        c.fw = Some(vec![2; len(c.n(), r)]);
    }
    c
}

fn check17(c: &Case, cx: &mut Cx) -> R {
    let n = c.n();
    // the smallest single-precision number is about 1e-45, the largest 3e38
    let single = c.f32 || c.ytype % 2 == 1 || c.ytype % 3 == 2;
    let mut c = c.clone();
    // the response type may only hold single precision
    if single && !c.fam.is_pois() && !c.fam.is_bin() {
        for y in c.y.iter_mut() {
            *y = *y as f32 as f64;
        }
    }
    let c = &c;
    let invalid = c.y.iter().any(|y| if c.fam.is_lin() { false } else { !c.fam.valid_y(*y) });
    if c.fam.is_pois() && c.ytype % 5 == 4 && c.y.iter().any(|y| *y > 65535.) {
        return skip("response not representable");
    }
    let t = c.aux(0).abs();
    let twice = c.kind & TWICE != 0;
    let sp = BuildSpec {
        twice_off: twice && c.off.is_some() && (t < 0.5 || (c.vw.is_none() && c.fw.is_none())),
        twice_vw: twice && c.vw.is_some() && (0.3..0.8).contains(&t),
        twice_fw: twice && c.fw.is_some() && (t > 0.6 || c.vw.is_none()),
        order: ((c.aux(1) + 1.) * 2.5) as u8,
    };
    let twice = sp.twice_off || sp.twice_vw || sp.twice_fw;
    let lengths = c.x.len() != n
        || c.off.as_ref().is_some_and(|o| o.len() != n)
        || c.vw.as_ref().is_some_and(|o| o.len() != n)
        || c.fw.as_ref().is_some_and(|o| o.len() != n);
    let mut seen: Option<DataView> = None;
    let res = build_with(c, &sp, &mut |m| seen = Some(m.data()));
    let want: Vec<&str> = [(invalid, "InvalidY"), (lengths, "BadInput"), (twice, "BuildError")].iter().filter(|q| q.0).map(|q| q.1).collect();
    cx.label(match want.len() {
        0 => "valid".to_string(),
        1 => want[0].to_string(),
        _ => "several faults".to_string(),
    });
    cx.label(format!("{:?}", c.fam));
    cx.nontrivial = true;
    match res {
        Err(e) => {
            cx.check("valid data are accepted", !want.is_empty(), || format!("{e:?}"))?;
            cx.check("the kind of error", want.contains(&e.kind()), || format!("{e:?} instead of {want:?}"))
        }
        Ok(()) => {
            cx.check("invalid data are rejected", want.is_empty(), || format!("accepted despite {want:?}"))?;
            kept(c, &seen.unwrap(), cx)
        }
    }
}
/// The model's data are the ones given.
fn kept(c: &Case, d: &DataView, cx: &mut Cx) -> R {
    let q = |x: f64| if c.f32 { x as f32 as f64 } else { x };
    let same = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| *x == q(*y));
    cx.check("responses are kept", same(&d.y, &c.y), || format!("{:?} instead of {:?}", d.y, c.y))?;
    cx.check("offsets are kept", d.off.is_some() == c.off.is_some() && d.off.iter().zip(&c.off).all(|(a, b)| same(a, b)), || format!("{:?} instead of {:?}", d.off, c.off))?;
    cx.check("variance weights are kept", d.w.is_some() == c.vw.is_some() && d.w.iter().zip(&c.vw).all(|(a, b)| same(a, b)), || format!("{:?} instead of {:?}", d.w, c.vw))?;
    let fw: Option<Vec<f64>> = c.fw.as_ref().map(|v| v.iter().map(|f| *f as f64).collect());
    cx.check("frequency weights are kept", d.f.is_some() == fw.is_some() && d.f.iter().zip(&fw).all(|(a, b)| same(a, b)), || format!("{:?} instead of {fw:?}", d.f))?;
    let o = c.icpt as usize;
    cx.check("shape of the design matrix", d.x.r == c.n() && d.x.c == c.p + o, || format!("{} x {}", d.x.r, d.x.c))?;
    if c.icpt {
        cx.check("intercept column", (0..c.n()).all(|i| d.x.at(i, 0) == 1.), || "not constant".into())?;
    }
    for j in 0..c.p {
        let col: Vec<f64> = (0..c.n()).map(|i| q(c.x[i][j])).collect();
        let got: Vec<f64> = (0..c.n()).map(|i| d.x.at(i, j + o)).collect();
        if !c.std {
            cx.check("covariates are kept", got == col, || format!("column {j}: {got:?} instead of {col:?}"))?;
        } else {
            // an increasing affine map of the covariate: equal values stay equal, order is kept
            for a in 0..c.n() {
                for b in [(a + 1) % c.n(), c.n() / 2] {
                    let (x, g) = (col[a] - col[b], got[a] - got[b]);
                    cx.check("standardisation keeps the order of a covariate", x == 0. && g == 0. || x > 0. && g >= 0. || x < 0. && g <= 0., || {
                        format!("column {j}, rows {a} and {b}: {} and {} become {} and {}", col[a], col[b], got[a], got[b])
                    })?;
                }
            }
        }
    }
    let nf: f64 = (0..c.n()).map(|i| c.f(i)).sum();
    cx.close("number of observations", d.n_obs, nf, 10. * c.eps() * nf)
}

// ---- C23 --------------------------------------------------------------------------------------

fn gen23(r: &mut Rng) -> Case {
    let mut c = gen_case(r, &Prof { l1p: 0.1, enp: 0.08, extra_hi: 12, big: 0.01, ..Prof::default() });
    let n = r.range(2, 14);
    // pairs: the call and its argument
    c.aux = (0..2 * n).map(|_| (r.sym(1.) * 1000.).round() / 1000.).collect();
    c.quantize();
    c
}
fn call(c: &Case, b: &[f64], op: f64, arg: f64) -> (St, Args) {
    let s = ALL_STATS[(((op + 1.) / 2. * ALL_STATS.len() as f64) as usize).min(ALL_STATS.len() - 1)];
    let mut g = Rng::new(arg.to_bits());
    let q = |x: f64| if c.f32 { x as f32 as f64 } else { x };
    let mut a = Args::default();
    match s {
        St::Fisher | St::Score | St::LrAgainst | St::ScoreAgainst | St::WaldAgainst => {
            a.params = b.iter().map(|x| q(x * (1. + 0.1 * g.sym(1.)) + 0.01 * g.sym(1.))).collect();
            if g.chance(0.2) {
                a.params = b.to_vec();
            }
            if g.chance(0.1) {
                a.params = vec![0.; b.len()];
            }
        }
        St::Predict => {
            let n = g.below(4);
            a.px = Mat { r: n, c: c.p, a: (0..n * c.p).map(|_| q(g.sym(2.))).collect() };
            a.poff = g.chance(0.4).then(|| (0..n).map(|_| q(g.sym(0.5))).collect());
            a.pl = g.below(3) as u8;
        }
        _ => {}
    }
    (s, a)
}
/// The gamma distribution function of the dependency panics for ratios of the response to its mean
/// that over- or underflow (a known finding).
fn extreme_ratio(c: &Case, f: &dyn FitApi) -> bool {
    let args = Args { px: Mat { r: c.n(), c: c.p, a: c.x.concat() }, poff: c.off.clone(), ..Args::default() };
    let mu = f.stat(St::Predict, &args).flat();
    // The fitted means aren't the predictions where the linear predictor is ill-conditioned; the
    // deviance of an observation then shows its ratio.
    let d = f.v(St::ResidDev).unwrap_or_default();
    let far = |i: usize| {
        let w = c.vw.as_ref().map_or(1., |w| w[i]);
        let g = d[i] * d[i] / (2. * w);
        !(g < if d[i] < 0. { 660. } else { 1e290 })
    };
    // the shape is at least EPSILON and at most its reciprocal
    mu.iter().zip(&c.y).any(|(m, y)| !(*m > 0. && m.is_finite() && (y / m) > 1e-290 && (y / m) < 1e290)) || (0..d.len()).any(far)
}

/// Quantile residuals of (nearly) perfectly fitted gamma responses take seconds each.
fn slow_quantiles(c: &Case, s: St, f: &dyn FitApi) -> bool {
    s == St::ResidQuantile && c.fam.is_gam() && !(f.s(St::Dispersion) >= 1e-6)
}

fn check23(c: &Case, cx: &mut Cx) -> R {
    let o = opts(c);
    let mut calls = 0;
    let mut repeats = 0;
    let res = with_model(c, |m| -> R {
        let before = m.data();
        let mut out: R = Ok(());
        let mut fit_err = None;
        let r = m.fit(&o, &mut |f| {
            let b = f.result();
            if b.iter().any(|x| !x.is_finite()) {
                out = skip("non-finite coefficients");
                return;
            }
            let first = (b.clone(), f.model_like(), f.history(), f.n_iter());
            let mut done: Vec<(St, String, Val)> = vec![];
            for k in 0..c.aux.len() / 2 {
                let (s, a) = call(c, &b, c.aux[2 * k], c.aux[2 * k + 1]);
                if slow_quantiles(c, s, f) {
                    continue;
                }
                let v = f.stat(s, &a);
                calls += 1;
                let key = format!("{a:?}");
                for (t, ka, w) in &done {
                    if *t == s && *ka == key {
                        repeats += 1;
                        if !v.same_bits(w) {
                            out = fail("the same call gives the same value", format!("{s:?} gave {w:?} first and {v:?} as call {k}"));
                            return;
                        }
                    }
                }
                // the value of a fresh fit
                let mut fresh = None;
                let mut same_fit = true;
                let r = m.fit(&o, &mut |g| {
                    same_fit = bits(&g.result(), &first.0) && g.model_like().to_bits() == first.1.to_bits() && g.n_iter() == first.3;
                    fresh = Some(g.stat(s, &a));
                });
                if let Err(e) = r {
                    out = fail("fitting again gives the same fit", format!("{e:?} instead of a fit"));
                    return;
                }
                if !same_fit {
                    out = fail("fitting again gives the same fit", format!("after call {k} ({s:?})"));
                    return;
                }
                let fresh = fresh.unwrap();
                if !v.same_bits(&fresh) {
                    let before: Vec<St> = done.iter().map(|d| d.0).collect();
                    out = fail("a value doesn't depend on earlier calls", format!("{s:?} gives {v:?} after {before:?}, but {fresh:?} as the first call"));
                    return;
                }
                done.push((s, key, v));
            }
            let last = (f.result(), f.model_like(), f.history(), f.n_iter());
            if !(bits(&last.0, &first.0) && last.1.to_bits() == first.1.to_bits() && last.3 == first.3 && last.2.len() == first.2.len()) {
                out = fail("calls don't change the fit", format!("{first:?} became {last:?}"));
            }
        });
        if let Err(e) = r {
            fit_err = Some(e);
        }
        out?;
        let after = m.data();
        let same = before.x.a.len() == after.x.a.len()
            && bits(&before.x.a, &after.x.a)
            && bits(&before.y, &after.y)
            && before.off == after.off
            && before.w == after.w
            && before.f == after.f;
        cx.check("the data of the model don't change", same, || "they did".into())?;
        if let Some(e) = fit_err {
            // an error is reproducible, too
            let again = m.fit(&o, &mut |_| ());
            return match again {
                Err(e2) if e2 == e || format!("{e:?}") == format!("{e2:?}") => skip(err_reason(&e)),
                other => fail("fitting again gives the same error", format!("{e:?} first and {other:?} then")),
            };
        }
        // a second model of the same data
        Ok(())
    });
    lift(res)??;
    // another model of the same data
    let a = with_fit(c, |f| (f.result(), f.model_like()));
    let b = with_fit(c, |f| (f.result(), f.model_like()));
    if let (Ok(a), Ok(b)) = (a, b) {
        cx.check("building again gives the same fit", bits(&a.0, &b.0) && a.1.to_bits() == b.1.to_bits(), || format!("{a:?} and {b:?}"))?;
    }
    cx.checks += calls;
    cx.nontrivial = calls >= 2;
    cx.label(match calls {
        0..=3 => "up to 3 calls",
        4..=8 => "4 to 8 calls",
        _ => "more than 8 calls",
    });
    if repeats > 0 {
        cx.label("with repeated calls");
    }
    cx.label(format!("{:?}", c.fam));
    Ok(())
}
fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}

// ---- C25 --------------------------------------------------------------------------------------

fn wild(r: &mut Rng, single: bool) -> f64 {
    let v = match r.below(10) {
        0 => 0.,
        1 => 1.,
        2 => -1.,
        3 => r.normal(),
        4 => (r.sym(3.)).round(),
        5 => 10f64.powf(r.sym(8.)),
        6 => -(10f64.powf(r.sym(8.))),
        7 => 10f64.powf(r.sym(if single { 36. } else { 300. })),
        8 => -(10f64.powf(r.sym(if single { 36. } else { 300. }))),
        _ => 0.1,
    };
    if single { v as f32 as f64 } else { v }
}
fn gen25(r: &mut Rng) -> Case {
    if r.chance(0.35) {
        // ordinary problems with a degenerate design and extreme options
        let mut c = gen_case(r, &Prof { degen: 0.5, l1p: 0.1, enp: 0.05, extra_lo: 0, extra_hi: 6, shiftp: 0.4, ..Prof::default() });
        c.aux = (0..8).map(|_| (r.sym(1.) * 1000.).round() / 1000.).collect();
        if r.chance(0.3) {
            c.tol = Some([0., 1e-300, 1e-3, 1., 1e30][r.below(5)]);
        }
        if r.chance(0.3) {
            c.max_iter = Some([0, 1, 2, 500][r.below(4)]);
        }
        c.kind = r.below(16) as u32;
        return c;
    }
    let from = if r.chance(0.8) { BUILTIN } else { ALL };
    let fam = *r.pick(from);
    let single = r.chance(0.2);
    let n = [0, 1, 1, 2, 2, 3, 4, 5, 6, 8][r.below(10)];
    let p = [0, 1, 1, 2, 2, 3, 5][r.below(7)];
    let mut x = vec![vec![0.; p]; n];
    for j in 0..p {
        match r.below(8) {
            0 => {
                let v = wild(r, single);
                x.iter_mut().for_each(|q| q[j] = v);
            }
            1 if j > 0 => x.iter_mut().for_each(|q| q[j] = q[j - 1]),
            2 => x.iter_mut().enumerate().for_each(|(i, q)| q[j] = (i == 0) as u8 as f64),
            3 | 4 => x.iter_mut().for_each(|q| q[j] = (r.normal() * 100.).round() / 100.),
            5 => x.iter_mut().enumerate().for_each(|(i, q)| q[j] = i as f64),
            _ => x.iter_mut().for_each(|q| q[j] = wild(r, single)),
        }
    }
    let mode = r.below(5);
    let draw = |i: usize, r: &mut Rng| -> f64 {
        if fam.is_lin() {
            match mode {
                0 => 0.,
                1 => 1.5,
                2 => i as f64,
                3 => wild(r, single),
                _ => r.normal(),
            }
        } else if fam.is_logistic() {
            match mode {
                0 => 0.,
                1 => 1.,
                2 => (2 * i >= n) as u8 as f64,
                3 => [0., 1., 0.5, 1e-30][r.below(4)],
                _ => r.unif(),
            }
        } else if fam.is_pois() {
            match mode {
                0 => 0.,
                1 => 1.,
                2 => i as f64,
                3 => [0., 1., 60000., 255.][r.below(4)],
                _ => r.below(10) as f64,
            }
        } else if fam.is_bin() {
            let m = fam.bin_n();
            match mode {
                0 => 0.,
                1 => m,
                2 => if 2 * i >= n { m } else { 0. },
                _ => r.range(0, m as usize) as f64,
            }
        } else {
            let big = if single { 30. } else { 250. };
            match mode {
                0 => 1.,
                1 => 0.1,
                2 => (i + 1) as f64,
                3 => 10f64.powf(r.sym(big)),
                _ => 10f64.powf(r.sym(2.)),
            }
        }
    };
    let y: Vec<f64> = (0..n).map(|i| draw(i, r)).map(|v| if single { v as f32 as f64 } else { v }).collect();
    let off = r.chance(0.25).then(|| (0..n).map(|_| wild(r, single)).collect());
    let pos = |v: f64| v.abs();
    let vw = r.chance(0.3).then(|| {
        let z = r.below(4);
        (0..n).map(|_| match z {
            0 => 0.,
            1 => [0., 1.][r.below(2)],
            2 => pos(wild(r, single)),
            _ => [0.5, 1., 2.][r.below(3)],
        }).collect()
    });
    let fw = r.chance(0.3).then(|| {
        let z = r.below(4);
        (0..n).map(|_| match z {
            0 => 0,
            1 => r.below(2) as u32,
            2 => [0, 1, 4_000_000_000][r.below(3)],
            _ => r.below(4) as u32,
        }).collect()
    });
    let lam = |r: &mut Rng| -> f64 {
        let v = pos(wild(r, single));
        if single { v as f32 as f64 } else { v }
    };
    Case {
        fam,
        f32: single,
        icpt: r.chance(0.75),
        std: r.chance(0.7),
        p,
        x,
        y,
        ytype: r.below(15) as u8,
        off,
        vw,
        fw,
        l1: if r.chance(0.15) { lam(r) } else { 0. },
        l2: if r.chance(0.25) { lam(r) } else { 0. },
        tol: r.chance(0.1).then(|| [0., 1e-30, 1., 1e30][r.below(4)]),
        max_iter: r.chance(0.15).then(|| [0, 1, 2, 500][r.below(4)]),
        layout: r.below(7) as u8,
        kind: r.below(16) as u32,
        aux: (0..8).map(|_| (r.sym(1.) * 1000.).round() / 1000.).collect(),
    }
}
fn check25(c: &Case, cx: &mut Cx) -> R {
    let mut g = Rng::new(c.aux(0).to_bits() ^ 77);
    // responses which the element type or the float type can't hold aren't valid data
    let invalid = c.y.iter().any(|y| {
        let z = if c.f32 || c.ytype % 2 == 1 || c.ytype % 3 == 2 { *y as f32 as f64 } else { *y };
        !z.is_finite() || !c.fam.valid_y(z)
    });
    if invalid {
        return skip("invalid response");
    }
    let mut o = opts(c);
    if c.kind & 3 == 3 {
        o.init = Some((0..c.k()).map(|_| wild(&mut g, c.f32)).collect());
    }
    o.via_options = c.kind & 4 != 0;
    let mut stats = 0;
    let mut extreme = None;
    let mut ended = "fit";
    let r = with_model(c, |m| {
        let r = m.fit(&o, &mut |f| {
            let b = f.result();
            let _ = f.history();
            let start = g.below(ALL_STATS.len());
            for i in 0..ALL_STATS.len() {
                let s = ALL_STATS[(start + i) % ALL_STATS.len()];
                // one refit per observation
                if slow_quantiles(c, s, f) || s == St::LooExact && c.n() > 120 {
                    continue;
                }
                let mut a = Args::default();
                a.params = match g.below(4) {
                    0 => b.clone(),
                    1 => vec![0.; c.k()],
                    _ => (0..c.k()).map(|_| wild(&mut g, c.f32)).collect(),
                };
                let rows = g.below(4);
                a.px = Mat { r: rows, c: c.p, a: (0..rows * c.p).map(|_| wild(&mut g, c.f32)).collect() };
                a.poff = g.chance(0.5).then(|| (0..rows).map(|_| wild(&mut g, c.f32)).collect());
                a.pl = g.below(3) as u8;
                if s == St::ResidQuantile && c.fam.is_gam() && extreme_ratio(c, f) {
                    if let Err(m) = catch(|| std::hint::black_box(f.stat(s, &a))) {
                        extreme = Some(m);
                    }
                } else {
                    std::hint::black_box(f.stat(s, &a));
                }
                stats += 1;
            }
        });
        if let Err(e) = r {
            ended = match e {
                LibErr::MaxIter { .. } => "ended in MaxIter",
                LibErr::Linalg(_) => "ended in LinalgError",
                LibErr::BadInput(_) => "ended in BadInput",
                _ => "ended in another error",
            };
        }
    });
    if let Err(e) = r {
        // building only fails for data that are invalid
        return fail("building succeeds", format!("{e:?}"));
    }
    if let Some(m) = extreme {
        return fail("panic for an extreme ratio of a gamma response to its mean", m);
    }
    cx.checks += 1 + stats;
    cx.nontrivial = true;
    cx.label(ended);
    cx.label(format!("{:?}", c.fam));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            title: "validation of inputs",
            r#gen: gen17,
            check: check17,
            cases: (1_500_000, 60_000_000),
            rule: "any built or rejected model",
            assumptions: &["linear responses are not restricted, and responses the element or float type can't represent are not judged"],
        },
        Prop {
            id: "C23",
            title: "independence of the call history",
            r#gen: gen23,
            check: check23,
            cases: (60_000, 4_000_000),
            rule: "a fit on which at least two methods were called",
            assumptions: &["quantile residuals of gamma fits with a dispersion below 1e-6 are left out as they take seconds each"],
        },
        Prop {
            id: "C25",
            title: "no panics",
            r#gen: gen25,
            check: check25,
            cases: (150_000, 15_000_000),
            rule: "a model of valid data built and fitted, with every statistic called if the fit succeeded",
            assumptions: &[
                "all numbers given are finite, weights and penalties nonnegative, arrays of consistent lengths",
                "quantile residuals of gamma fits with a dispersion below 1e-6 are left out as they take seconds each",
                "a call that doesn't return within 60 s counts as not terminating",
            ],
        },
    ]
}
