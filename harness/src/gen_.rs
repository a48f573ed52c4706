//! Structured generation of regression problems.
use crate::case::Case;
use crate::family::*;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Prof {
    pub fams: &'static [Fam],
    pub f32p: f64,
    /// probabilities of: L2 only, L1 only, elastic net (rest unregularised)
    pub l2p: f64,
    pub l1p: f64,
    pub enp: f64,
    pub pmin: usize,
    pub pmax: usize,
    /// rows beyond the number of parameters
    pub extra_lo: usize,
    pub extra_hi: usize,
    pub big: f64,
    pub no_icpt: f64,
    pub no_std: f64,
    pub offp: f64,
    pub vwp: f64,
    pub fwp: f64,
    pub zero_fw: bool,
    pub big_fw: bool,
    /// probability of constant / duplicated / collinear columns and similar degeneracies
    pub degen: f64,
    /// probability that a column is badly scaled or shifted
    pub shiftp: f64,
    pub effect: f64,
    pub layouts: bool,
    pub aux: usize,
    pub kinds: u32,
    /// probability that the response is measured in other units
    pub units: f64,
}
impl Default for Prof {
    fn default() -> Self {
        Prof {
            fams: ALL,
            f32p: 0.1,
            l2p: 0.25,
            l1p: 0.,
            enp: 0.,
            pmin: 0,
            pmax: 4,
            extra_lo: 1,
            extra_hi: 18,
            big: 0.03,
            no_icpt: 0.2,
            no_std: 0.3,
            offp: 0.3,
            vwp: 0.35,
            fwp: 0.35,
            zero_fw: true,
            big_fw: true,
            degen: 0.,
            shiftp: 0.2,
            effect: 0.8,
            layouts: true,
            aux: 12,
            kinds: 1,
            units: 0.1,
        }
    }
}

fn q(x: f64, d: i32) -> f64 {
    let s = 10f64.powi(d);
    (x * s).round() / s
}

pub fn gen_col(n: usize, p: &Prof, prev: &[Vec<f64>], positive: bool, r: &mut Rng) -> Vec<f64> {
    let mut c: Vec<f64> = match r.below(7) {
        0 | 1 => (0..n).map(|_| q(r.normal(), 2)).collect(),
        2 => (0..n).map(|_| q(r.sym(1.), 2)).collect(),
        3 => (0..n).map(|_| r.below(2) as f64).collect(),
        4 => (0..n).map(|_| r.range(0, 6) as f64 - 3.).collect(),
        5 => (0..n).map(|i| q(i as f64 / n as f64, 3)).collect(),
        _ => (0..n).map(|_| q(r.normal().exp(), 2)).collect(),
    };
    if n > 2 && c.iter().all(|x| *x == c[0]) {
        c[0] += 1.;
    }
    if r.chance(p.shiftp) {
        let s = [0.01, 0.1, 10., 100., 1000.][r.below(5)];
        let sh = [0., 1., -10., 100., -1000.][r.below(5)];
        for v in c.iter_mut() {
            *v = q(*v * s + sh * s.max(1.).min(10.), 6);
        }
    }
    if r.chance(p.degen) {
        match r.below(4) {
            0 => {
                let v = [0., 1., 0.1, -3.7, 1e4 / 3., 0.3][r.below(6)];
                c.iter_mut().for_each(|x| *x = v);
            }
            1 if !prev.is_empty() => {
                c = prev[r.below(prev.len())].clone();
            }
            2 if prev.len() >= 2 => {
                c = (0..n).map(|i| prev[0][i] + prev[1][i]).collect();
            }
            _ => {
                let v = q(r.normal(), 1);
                c.iter_mut().for_each(|x| *x = v);
                if n > 0 {
                    let i = r.below(n);
                    c[i] += 1.;
                }
            }
        }
    }
    if positive {
        for v in c.iter_mut() {
            *v = v.abs() + 0.25;
        }
    }
    c
}

pub fn gen_case(r: &mut Rng, p: &Prof) -> Case {
    let fam = *r.pick(p.fams);
    let mut icpt = !r.chance(p.no_icpt);
    let std = !r.chance(p.no_std);
    let mut np = r.range(p.pmin, p.pmax);
    if p.pmax >= 4 && r.chance(0.02) {
        np = r.range(5, 9);
    }
    if np == 0 && !icpt {
        if p.pmax == 0 { icpt = true } else { np = 1 }
    }
    let k = np + icpt as usize;
    let extra = if r.chance(p.big) {
        if r.chance(0.08) { r.range(200, 600) } else { r.range(40, 150) }
    } else {
        r.range(p.extra_lo, p.extra_hi)
    };
    let noncanon_more = if fam.is_logistic() || matches!(fam, Fam::Bin1) { 4 + 2 * np } else { 0 };
    let n = k + extra + if p.degen > 0. && r.chance(0.3) { 0 } else { noncanon_more };
    let n = n.max(1);
    // one-hot designs now and then
    let mut cols: Vec<Vec<f64>> = Vec::new();
    let onehot = np >= 1 && r.chance(0.06);
    let pos0 = !icpt && fam.domain() != 0;
    for j in 0..np {
        if onehot {
            cols.push((0..n).map(|i| if i % (np + 1) == j { 1. } else { 0. }).collect());
        } else {
            let c = gen_col(n, p, &cols, pos0 && j == 0, r);
            cols.push(c);
        }
    }
    if onehot && pos0 {
        cols[0] = vec![1.; n];
    }
    let offv: Option<Vec<f64>> = if r.chance(p.offp) {
        let s = match fam.domain() {
            0 => [0.3, 1., 0.5][r.below(3)],
            _ => 0.1,
        };
        // sign of the offset keeps bounded-domain families feasible more often
        Some((0..n).map(|_| {
            let v = q(r.sym(s), 2);
            if fam.domain() != 0 && !icpt { v.abs() * fam.domain() as f64 } else { v }
        }).collect())
    } else {
        None
    };
    // linear effect on standardised columns
    let eff = p.effect * [0.3, 1., 1.5][r.below(3)] / (np.max(1) as f64).sqrt();
    let mut lin = vec![0.; n];
    let spread = r.unif();
    for c in &cols {
        let m = c.iter().sum::<f64>() / n as f64;
        let s = (c.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64).sqrt();
        let b = if r.chance(0.35) { 0. } else { eff * r.normal() };
        if s > 0. {
            for i in 0..n {
                lin[i] += b * (c[i] - m) / s;
            }
        }
    }
    let base = if icpt { r.normal() * 0.8 } else { r.normal() * 0.1 };
    let disp = [0.05, 0.2, 0.5, 1.][r.below(4)];
    let y: Vec<f64> = (0..n)
        .map(|i| {
            let o = offv.as_ref().map_or(0., |v| v[i]);
            let w = match fam {
                Fam::ExpNeg | Fam::GamNeg | Fam::IgNeg => -(0.3 + spread) * (0.5 * lin[i].clamp(-2., 2.)).exp() + o,
                Fam::GamRec => (0.3 + spread) * (0.5 * lin[i].clamp(-2., 2.)).exp() + o,
                Fam::PoisSqrt => (1.2 + spread) * (0.4 * lin[i].clamp(-2., 2.)).exp() + o,
                Fam::LinAffine => AFF_A * (base + lin[i]) + AFF_B + o,
                _ => base + lin[i].clamp(-3., 3.) + o,
            };
            let w = match fam.domain() {
                -1 => w.min(-0.05),
                1 => w.max(0.05),
                _ => w,
            };
            fam.draw(fam.mean(w), disp, r)
        })
        .collect();
    let mut y = y;
    if fam.is_logistic() && r.chance(0.15) {
        // fractional responses
        for v in y.iter_mut() {
            *v = q((*v * 0.8 + 0.2 * r.unif()).clamp(0., 1.), 2);
        }
    }
    let vw = if r.chance(p.vwp) {
        Some((0..n).map(|_| [0.25, 0.5, 1., 1.5, 2., 3., 0.7, 1.2][r.below(8)]).collect())
    } else {
        None
    };
    let fw = if r.chance(p.fwp) {
        let mut v: Vec<u32> = (0..n).map(|_| [1, 1, 1, 2, 3, 5, 1, 2][r.below(8)]).collect();
        if p.zero_fw && r.chance(0.4) && n > k + 2 {
            let nz = 1 + r.below((n - k - 1).min(3));
            for _ in 0..nz {
                let i = r.below(n);
                v[i] = 0;
            }
        }
        if r.chance(0.1) {
            let i = r.below(n);
            v[i] = 40;
        }
        if p.big_fw && r.chance(0.04) {
            // many identical observations
            let m = [100, 1000, 65_537, 300][r.below(4)];
            v.iter_mut().for_each(|f| *f *= m);
        }
        Some(v)
    } else {
        None
    };
    let u = r.unif();
    let lam = |r: &mut Rng| [0.01, 0.1, 0.5, 1., 2., 5., 20.][r.below(7)];
    let (l1, l2) = if u < p.l2p {
        (0., lam(r))
    } else if u < p.l2p + p.l1p {
        (lam(r), 0.)
    } else if u < p.l2p + p.l1p + p.enp {
        (lam(r), lam(r))
    } else {
        (0., 0.)
    };
    let mut c = Case {
        fam,
        f32: r.chance(p.f32p),
        icpt,
        std,
        p: np,
        x: (0..n).map(|i| cols.iter().map(|c| c[i]).collect()).collect(),
        y,
        ytype: r.below(15) as u8,
        off: offv,
        vw,
        fw,
        l1,
        l2,
        tol: None,
        max_iter: None,
        layout: if p.layouts { r.below(7) as u8 } else { 0 },
        kind: r.below(p.kinds as usize) as u32,
        aux: (0..p.aux).map(|_| q(r.sym(1.), 3)).collect(),
    };
    if r.chance(p.units) {
        // the alternating iteration under an L1 penalty has absolute tolerances
        let top = if c.l1 > 0. { if c.f32 { 0. } else { 1. } } else if c.f32 { [3., 5.][r.below(2)] } else { [4., 8., 13.][r.below(3)] };
        change_units(&mut c, 10f64.powi(r.sym(top).round() as i32));
    }
    // keep float response types exactly representable
    if c.ytype % 2 == 1 || c.ytype % 3 == 2 {
        if fam.is_lin() || fam.positive() || fam.is_logistic() {
            for v in c.y.iter_mut() {
                *v = *v as f32 as f64;
            }
        }
    }
    c.quantize();
    if c.f32 {
        for v in c.y.iter_mut() {
            *v = *v as f32 as f64;
        }
    }
    c
}

/// Measures the response in other units, with offsets and penalties to match.
pub fn change_units(c: &mut Case, s: f64) {
    let (eta, like) = match c.fam {
        Fam::Lin => (s, s * s),
        Fam::ExpNeg | Fam::GamNeg | Fam::GamRec => (1. / s, 1.),
        Fam::IgNeg => (1. / (s * s), 1. / s),
        Fam::ExpLog | Fam::GamLog if c.icpt => (1., 1.),
        Fam::IgLog if c.icpt => (1., 1. / s),
        _ => return,
    };
    c.y.iter_mut().for_each(|y| *y *= s);
    if let Some(o) = c.off.as_mut() {
        o.iter_mut().for_each(|o| *o *= eta);
    }
    c.l1 *= like / eta;
    c.l2 *= like / (eta * eta);
}
