//! Reference definitions of the response families and links, written from the textbook
//! definitions and the crate's documentation, in f64 and independently of the crate's code.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Fam {
    Lin,
    Logit,
    Cloglog,
    Pois,
    Bin1,
    Bin2,
    Bin7,
    Bin40,
    ExpNeg,
    ExpLog,
    GamNeg,
    GamLog,
    IgNeg,
    IgLog,
    // custom links supplied by the harness through the public Link/Transform traits
    PoisSqrt,
    LinAffine,
    LogitCustom,
    PoisCustom,
    GamRec,
    BernLogLin, // logistic response with probit-free "identity-on-logit/2" link (scaled logit)
}
use Fam::*;

pub const BUILTIN: &[Fam] = &[
    Lin, Logit, Cloglog, Pois, Bin1, Bin2, Bin7, Bin40, ExpNeg, ExpLog, GamNeg, GamLog, IgNeg, IgLog,
];
pub const ALL: &[Fam] = &[
    Lin, Logit, Cloglog, Pois, Bin1, Bin2, Bin7, Bin40, ExpNeg, ExpLog, GamNeg, GamLog, IgNeg, IgLog,
    PoisSqrt, LinAffine, LogitCustom, PoisCustom, GamRec, BernLogLin,
];
/// canonical links with unbounded linear-predictor domain and concave likelihood
pub const CANON_FREE: &[Fam] = &[Lin, Logit, Pois, Bin1, Bin2, Bin7, Bin40];
pub const CANON: &[Fam] = &[Lin, Logit, Pois, Bin1, Bin2, Bin7, Bin40, ExpNeg, GamNeg, IgNeg];

/// Affine link used by LinAffine: omega = AFF_A * mu + AFF_B
pub const AFF_A: f64 = 2.5;
pub const AFF_B: f64 = -3.4;

pub fn log1pexp(x: f64) -> f64 {
    if x > 0. { x + (-x).exp().ln_1p() } else { x.exp().ln_1p() }
}
pub fn xlogx(x: f64) -> f64 {
    if x == 0. { 0. } else { x * x.ln() }
}
fn sigmoid(x: f64) -> f64 {
    if x >= 0. { 1. / (1. + (-x).exp()) } else { let e = x.exp(); e / (1. + e) }
}

impl Fam {
    pub fn bin_n(self) -> f64 {
        match self {
            Bin1 => 1.,
            Bin2 => 2.,
            Bin7 => 7.,
            Bin40 => 40.,
            _ => 1.,
        }
    }
    pub fn is_bin(self) -> bool {
        matches!(self, Bin1 | Bin2 | Bin7 | Bin40)
    }
    pub fn is_logistic(self) -> bool {
        matches!(self, Logit | Cloglog | LogitCustom | BernLogLin)
    }
    pub fn is_pois(self) -> bool {
        matches!(self, Pois | PoisSqrt | PoisCustom)
    }
    pub fn is_lin(self) -> bool {
        matches!(self, Lin | LinAffine)
    }
    pub fn is_gam(self) -> bool {
        matches!(self, GamNeg | GamLog | GamRec)
    }
    pub fn is_exp(self) -> bool {
        matches!(self, ExpNeg | ExpLog)
    }
    pub fn is_ig(self) -> bool {
        matches!(self, IgNeg | IgLog)
    }
    pub fn positive(self) -> bool {
        self.is_gam() || self.is_exp() || self.is_ig()
    }
    pub fn free_dispersion(self) -> bool {
        self.is_lin() || self.is_gam() || self.is_ig()
    }
    pub fn canonical(self) -> bool {
        matches!(self, Lin | Logit | Pois | Bin1 | Bin2 | Bin7 | Bin40 | ExpNeg | GamNeg | IgNeg | LogitCustom | PoisCustom)
    }
    /// log-likelihood concave in the linear predictor on its whole domain
    pub fn concave(self) -> bool {
        // Cloglog with 0/1 response is concave; log links of gamma/exponential are concave;
        // sqrt Poisson is concave on omega > 0; 1/mu gamma likewise (sign flip of canonical).
        !matches!(self, IgLog)
    }
    /// linear predictor must be < 0 (-1), > 0 (+1) or is unconstrained (0)
    pub fn domain(self) -> i32 {
        match self {
            ExpNeg | GamNeg | IgNeg => -1,
            PoisSqrt | GamRec => 1,
            _ => 0,
        }
    }
    pub fn in_domain(self, w: f64) -> bool {
        match self.domain() {
            -1 => w < 0.,
            1 => w > 0.,
            _ => w.is_finite(),
        }
    }
    /// g(mu)
    pub fn link(self, mu: f64) -> f64 {
        match self {
            Lin => mu,
            LinAffine => AFF_A * mu + AFF_B,
            Logit | LogitCustom => mu.ln() - (-mu).ln_1p(),
            BernLogLin => 0.5 * (mu.ln() - (-mu).ln_1p()),
            Cloglog => (-(-mu).ln_1p()).ln(),
            Pois | PoisCustom => mu.ln(),
            PoisSqrt => mu.sqrt(),
            Bin1 | Bin2 | Bin7 | Bin40 => mu.ln() - (self.bin_n() - mu).ln(),
            ExpNeg | GamNeg => -1. / mu,
            GamRec => 1. / mu,
            ExpLog | GamLog | IgLog => mu.ln(),
            IgNeg => -0.5 / (mu * mu),
        }
    }
    /// g^-1(omega)
    pub fn mean(self, w: f64) -> f64 {
        match self {
            Lin => w,
            LinAffine => (w - AFF_B) / AFF_A,
            Logit | LogitCustom => sigmoid(w),
            BernLogLin => sigmoid(2. * w),
            Cloglog => -(-w.exp()).exp_m1(),
            Pois | PoisCustom => w.exp(),
            PoisSqrt => w * w,
            Bin1 | Bin2 | Bin7 | Bin40 => self.bin_n() * sigmoid(w),
            ExpNeg | GamNeg => -1. / w,
            GamRec => 1. / w,
            ExpLog | GamLog | IgLog => w.exp(),
            IgNeg => 1. / (-2. * w).sqrt(),
        }
    }
    /// natural parameter eta(omega)
    pub fn nat(self, w: f64) -> f64 {
        match self {
            LinAffine => (w - AFF_B) / AFF_A,
            BernLogLin => 2. * w,
            Cloglog => {
                let e = w.exp();
                // ln(exp(e) - 1)
                if e > 1. { e + (-(-e).exp()).ln_1p() } else { e.exp_m1().ln() }
            }
            PoisSqrt => 2. * w.ln(),
            GamRec => -w,
            ExpLog | GamLog => -(-w).exp(),
            IgLog => -0.5 * (-2. * w).exp(),
            _ => w,
        }
    }
    /// d eta / d omega
    pub fn dnat(self, w: f64) -> f64 {
        match self {
            LinAffine => 1. / AFF_A,
            BernLogLin => 2.,
            Cloglog => {
                let e = w.exp();
                if e == 0. { 1. } else { e / -(-e).exp_m1() }
            }
            PoisSqrt => 2. / w,
            GamRec => -1.,
            ExpLog | GamLog => (-w).exp(),
            IgLog => (-2. * w).exp(),
            _ => 1.,
        }
    }
    /// variance function from the linear predictor (stable in the tails)
    pub fn var_w(self, w: f64) -> f64 {
        match self {
            Logit | LogitCustom => sigmoid(w) * sigmoid(-w),
            BernLogLin => sigmoid(2. * w) * sigmoid(-2. * w),
            Cloglog => self.mean(w) * (-w.exp()).exp(),
            Bin1 | Bin2 | Bin7 | Bin40 => self.bin_n() * sigmoid(w) * sigmoid(-w),
            _ => self.var(self.mean(w)),
        }
    }
    pub fn var(self, mu: f64) -> f64 {
        if self.is_lin() {
            1.
        } else if self.is_logistic() {
            mu * (1. - mu)
        } else if self.is_pois() {
            mu
        } else if self.is_bin() {
            mu * (self.bin_n() - mu) / self.bin_n()
        } else if self.is_ig() {
            mu * mu * mu
        } else {
            mu * mu
        }
    }
    /// per-observation log-likelihood y*eta - A(eta) as a function of the linear predictor
    pub fn ll(self, y: f64, w: f64) -> f64 {
        if !self.in_domain(w) {
            return f64::NAN;
        }
        let e = self.nat(w);
        if self.is_lin() {
            y * e - 0.5 * e * e
        } else if self.is_logistic() {
            // y*e - log(1+exp(e)), stable
            if e < 0. { y * e - e.exp().ln_1p() } else { (y - 1.) * e - (-e).exp().ln_1p() }
        } else if self.is_pois() {
            y * e - e.exp()
        } else if self.is_bin() {
            y * e - self.bin_n() * log1pexp(e)
        } else if self.is_ig() {
            y * e + (-2. * e).sqrt()
        } else {
            y * e + (-e).ln()
        }
    }
    pub fn sat(self, y: f64) -> f64 {
        if self.is_lin() {
            0.5 * y * y
        } else if self.is_logistic() {
            xlogx(y) + xlogx(1. - y)
        } else if self.is_pois() {
            xlogx(y) - y
        } else if self.is_bin() {
            xlogx(y) + xlogx(self.bin_n() - y) - xlogx(self.bin_n())
        } else if self.is_ig() {
            0.5 / y
        } else {
            -1. - y.ln()
        }
    }
    /// Unit deviance by its usual closed form (independent of ll/sat subtraction).
    pub fn unit_dev(self, y: f64, mu: f64) -> f64 {
        let rel = |a: f64, b: f64| if a == 0. { 0. } else { a * (a / b).ln() };
        if self.is_lin() {
            (y - mu) * (y - mu)
        } else if self.is_logistic() {
            2. * (rel(y, mu) + rel(1. - y, 1. - mu))
        } else if self.is_pois() {
            2. * (rel(y, mu) - (y - mu))
        } else if self.is_bin() {
            let n = self.bin_n();
            2. * (rel(y, mu) + rel(n - y, n - mu))
        } else if self.is_ig() {
            (y - mu) * (y - mu) / (y * mu * mu)
        } else {
            2. * ((y - mu) / mu - (y / mu).ln())
        }
    }
    /// Unit deviance at a linear predictor, accurate where the mean rounds to the end of its range.
    pub fn unit_dev_w(self, y: f64, w: f64) -> f64 {
        if !(self.is_logistic() || self.is_bin()) {
            return self.unit_dev(y, self.mean(w));
        }
        let (n, e) = (if self.is_bin() { self.bin_n() } else { 1. }, self.nat(w));
        // near the observed proportion the direct form loses nothing but cancels less
        let mu = self.mean(w);
        if y > 0. && y < n && mu > 1e-3 * n && mu < 0.999 * n {
            return self.unit_dev(y, mu);
        }
        2. * (xlogx(y / n) * n + xlogx(1. - y / n) * n + y * log1pexp(-e) + (n - y) * log1pexp(e))
    }
    pub fn valid_y(self, y: f64) -> bool {
        if self.is_lin() {
            true
        } else if self.is_logistic() {
            (0. ..=1.).contains(&y)
        } else if self.is_pois() {
            y >= 0. && y.fract() == 0.
        } else if self.is_bin() {
            y >= 0. && y.fract() == 0. && y <= self.bin_n()
        } else {
            y > 0. && y.is_finite()
        }
    }
    /// Draw a response value with mean mu.
    pub fn draw(self, mu: f64, disp: f64, r: &mut Rng) -> f64 {
        let q = |x: f64| (x * 1000.).round() / 1000.;
        if self.is_lin() {
            q(mu + disp.sqrt() * r.normal())
        } else if self.is_logistic() {
            if r.unif() < mu { 1. } else { 0. }
        } else if self.is_pois() {
            let u = r.unif();
            let mut p = (-mu).exp();
            let mut c = p;
            let mut k = 0.;
            while u > c && k < 5000. {
                k += 1.;
                p *= mu / k;
                c += p;
                if p < 1e-300 && k > mu {
                    break;
                }
            }
            k
        } else if self.is_bin() {
            let n = self.bin_n() as usize;
            let p = mu / n as f64;
            (0..n).filter(|_| r.unif() < p).count() as f64
        } else if self.is_exp() {
            sig4(-mu * r.unif().ln())
        } else if self.is_gam() {
            // integer shape
            let k = (1. / disp).round().clamp(1., 20.) as usize;
            let s: f64 = (0..k).map(|_| -r.unif().ln()).sum();
            sig4(mu * s / k as f64)
        } else {
            let lam = 1. / disp;
            let z = r.normal();
            let nu = z * z;
            let x = mu + mu * mu * nu / (2. * lam) - mu / (2. * lam) * (4. * mu * lam * nu + mu * mu * nu * nu).sqrt();
            let v = if r.unif() <= mu / (mu + x) { x } else { mu * mu / x };
            sig4(v)
        }
    }
}

/// Round to 4 significant digits, strictly positive.
pub fn sig4(x: f64) -> f64 {
    if !(x > 0.) || !x.is_finite() {
        return 1e-3;
    }
    let x = x.clamp(1e-4, 1e5);
    format!("{:.3e}", x).parse().unwrap()
}
