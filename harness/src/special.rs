//! Distribution functions for the oracles, implemented here rather than taken from the library
//! used by the code under test.

pub fn ln_gamma(x: f64) -> f64 {
    // Lanczos, g = 7
    const G: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    if x < 0.5 {
        let pi = std::f64::consts::PI;
        return (pi / (pi * x).sin()).ln() - ln_gamma(1. - x);
    }
    let x = x - 1.;
    let mut a = G[0];
    for (i, g) in G.iter().enumerate().skip(1) {
        a += g / (x + i as f64);
    }
    let t = x + 7.5;
    0.5 * (2. * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Regularised incomplete gamma functions (P, Q).
pub fn gamma_pq(a: f64, x: f64) -> (f64, f64) {
    if x <= 0. {
        return (0., 1.);
    }
    if x < a + 1. {
        let mut ap = a;
        let mut sum = 1. / a;
        let mut del = sum;
        for _ in 0..100000 {
            ap += 1.;
            del *= x / ap;
            sum += del;
            if del.abs() < sum.abs() * 1e-17 {
                break;
            }
        }
        let p = sum * (-x + a * x.ln() - ln_gamma(a)).exp();
        (p, 1. - p)
    } else {
        let tiny = 1e-300;
        let mut b = x + 1. - a;
        let mut c = 1. / tiny;
        let mut d = 1. / b;
        let mut h = d;
        for i in 1..100000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1. / d;
            let del = d * c;
            h *= del;
            if (del - 1.).abs() < 1e-16 {
                break;
            }
        }
        let q = (-x + a * x.ln() - ln_gamma(a)).exp() * h;
        (1. - q, q)
    }
}

/// Standard normal (lower, upper) tail probabilities.
pub fn norm_tails(z: f64) -> (f64, f64) {
    let (p, q) = gamma_pq(0.5, 0.5 * z * z);
    if z >= 0. { (0.5 + 0.5 * p, 0.5 * q) } else { (0.5 * q, 0.5 + 0.5 * p) }
}

pub fn chi2_sf(x: f64, k: f64) -> f64 {
    if x <= 0. { 1. } else { gamma_pq(0.5 * k, 0.5 * x).1 }
}

/// Regularised incomplete beta function I_x(a, b).
pub fn beta_inc(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0. {
        return 0.;
    }
    if x >= 1. {
        return 1.;
    }
    let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (-x).ln_1p()).exp();
    if x < (a + 1.) / (a + b + 2.) { bt * betacf(a, b, x) / a } else { 1. - bt * betacf(b, a, 1. - x) / b }
}
fn betacf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let (qab, qap, qam) = (a + b, a + 1., a - 1.);
    let mut c = 1.;
    let mut d = 1. - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1. / d;
    let mut h = d;
    for m in 1..100000 {
        let m = m as f64;
        let aa = m * (b - m) * x / ((qam + 2. * m) * (a + 2. * m));
        d = 1. + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1. + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1. / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + 2. * m) * (qap + 2. * m));
        d = 1. + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1. + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1. / d;
        let del = d * c;
        h *= del;
        if (del - 1.).abs() < 1e-16 {
            break;
        }
    }
    h
}
/// Two-tailed probability of |T| > |t| for Student's t.
pub fn t_two(t: f64, df: f64) -> f64 {
    beta_inc(0.5 * df, 0.5, df / (df + t * t))
}
/// Upper tail of the F(d1, d2) distribution.
pub fn f_sf(x: f64, d1: f64, d2: f64) -> f64 {
    if x <= 0. { 1. } else { beta_inc(0.5 * d2, 0.5 * d1, d2 / (d2 + d1 * x)) }
}
