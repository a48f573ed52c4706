//! Object-safe adaptor over the crate's public API, so that every property can be written once
//! for all families, link functions and floating-point types.
use crate::case::Case;
use crate::family::{AFF_A, AFF_B, Fam};
use crate::linalg::Mat;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis, ShapeBuilder, s};
use ndarray_glm::error::RegressionError;
use ndarray_glm::link::{Link, Transform};
use ndarray_glm::num::Float as GF;
use ndarray_glm::{
    Binomial, Exponential, Fit, FitOptions, Gamma, InvGaussian, Linear, Logistic, ModelBuilder, Poisson, exp_link,
    gamma_link, inv_gauss_link, logistic_link,
};
use num_traits::{NumCast, ToPrimitive};

// ---- custom links implemented the way the documentation asks users to -------------------------

/// sqrt link for Poisson (the documentation's example)
pub struct SqrtL;
impl Link<Poisson<SqrtL>> for SqrtL {
    fn func<F: GF>(mu: F) -> F {
        num_traits::Float::sqrt(mu)
    }
    fn func_inv<F: GF>(w: F) -> F {
        w * w
    }
}
impl Transform for SqrtL {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| F::two() * num_traits::Float::ln(w))
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|w| F::two() / w)
    }
}
/// affine link for Linear
pub struct Affine;
fn fc<F: GF>(x: f64) -> F {
    <F as NumCast>::from(x).unwrap()
}
impl Link<Linear<Affine>> for Affine {
    fn func<F: GF>(y: F) -> F {
        fc::<F>(AFF_A) * y + fc::<F>(AFF_B)
    }
    fn func_inv<F: GF>(w: F) -> F {
        (w - fc::<F>(AFF_B)) / fc::<F>(AFF_A)
    }
}
impl Transform for Affine {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        w.mapv(|w| (w - fc::<F>(AFF_B)) / fc::<F>(AFF_A))
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|_| F::one() / fc::<F>(AFF_A))
    }
}
/// The logit link again, but declared through Transform rather than Canonical.
pub struct LogitT;
impl Link<Logistic<LogitT>> for LogitT {
    fn func<F: GF>(y: F) -> F {
        num_traits::Float::ln(y / (F::one() - y))
    }
    fn func_inv<F: GF>(w: F) -> F {
        num_traits::Float::recip(F::one() + num_traits::Float::exp(-w))
    }
}
impl Transform for LogitT {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        w
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        Array1::ones(w.len())
    }
}
/// half-logit: omega = logit(mu)/2, so eta = 2 omega
pub struct HalfLogit;
impl Link<Logistic<HalfLogit>> for HalfLogit {
    fn func<F: GF>(y: F) -> F {
        F::half() * num_traits::Float::ln(y / (F::one() - y))
    }
    fn func_inv<F: GF>(w: F) -> F {
        num_traits::Float::recip(F::one() + num_traits::Float::exp(-F::two() * w))
    }
}
impl Transform for HalfLogit {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        w.mapv(|x| F::two() * x)
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        Array1::from_elem(w.len(), F::two())
    }
}
pub struct LogT;
impl Link<Poisson<LogT>> for LogT {
    fn func<F: GF>(y: F) -> F {
        num_traits::Float::ln(y)
    }
    fn func_inv<F: GF>(w: F) -> F {
        num_traits::Float::exp(w)
    }
}
impl Transform for LogT {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        w
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        Array1::ones(w.len())
    }
}
/// positive reciprocal link for Gamma
pub struct RecL;
impl Link<Gamma<RecL>> for RecL {
    fn func<F: GF>(y: F) -> F {
        num_traits::Float::recip(y)
    }
    fn func_inv<F: GF>(w: F) -> F {
        num_traits::Float::recip(w)
    }
}
impl Transform for RecL {
    fn nat_param<F: GF>(w: Array1<F>) -> Array1<F> {
        -w
    }
    fn d_nat_param<F: GF>(w: &Array1<F>) -> Array1<F> {
        w.mapv(|_| -F::one())
    }
}

// ---- results ----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum LibErr {
    BadInput(String),
    InvalidY(String),
    Build(String),
    Linalg(String),
    MaxIter { n_iter: usize, hist: Vec<(Vec<f64>, f64)> },
}
impl LibErr {
    pub fn kind(&self) -> &'static str {
        match self {
            LibErr::BadInput(_) => "BadInput",
            LibErr::InvalidY(_) => "InvalidY",
            LibErr::Build(_) => "BuildError",
            LibErr::Linalg(_) => "LinalgError",
            LibErr::MaxIter { .. } => "MaxIter",
        }
    }
}

fn d<F: GF>(x: F) -> f64 {
    x.to_f64().unwrap()
}
fn dv<F: GF>(x: &Array1<F>) -> Vec<f64> {
    x.iter().map(|v| d(*v)).collect()
}
fn dm<F: GF>(x: &Array2<F>) -> Mat {
    Mat { r: x.nrows(), c: x.ncols(), a: x.iter().map(|v| d(*v)).collect() }
}
fn fv<F: GF>(x: &[f64]) -> Array1<F> {
    x.iter().map(|v| fc::<F>(*v)).collect()
}
fn fm<F: GF>(x: &Mat) -> Array2<F> {
    Array2::from_shape_vec((x.r, x.c), x.a.iter().map(|v| fc::<F>(*v)).collect()).unwrap()
}
fn ce<F: GF>(e: RegressionError<F>) -> LibErr {
    match e {
        RegressionError::BadInput(s) => LibErr::BadInput(s),
        RegressionError::InvalidY(s) => LibErr::InvalidY(s),
        RegressionError::BuildError(s) => LibErr::Build(s),
        RegressionError::LinalgError { source } => LibErr::Linalg(source.to_string()),
        RegressionError::MaxIter { n_iter, history } => {
            LibErr::MaxIter { n_iter, hist: history.iter().map(|s| (dv(&s.guess), d(s.like))).collect() }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    S(f64),
    V(Vec<f64>),
    M(Mat),
    E(LibErr),
    Na,
}
impl Val {
    /// bit-for-bit identity (NaN equals NaN)
    pub fn same_bits(&self, o: &Val) -> bool {
        let b = |a: &[f64], c: &[f64]| a.len() == c.len() && a.iter().zip(c).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
        match (self, o) {
            (Val::S(a), Val::S(c)) => b(&[*a], &[*c]),
            (Val::V(a), Val::V(c)) => b(a, c),
            (Val::M(a), Val::M(c)) => a.r == c.r && a.c == c.c && b(&a.a, &c.a),
            (Val::E(a), Val::E(c)) => a == c,
            (Val::Na, Val::Na) => true,
            _ => false,
        }
    }
    pub fn flat(&self) -> Vec<f64> {
        match self {
            Val::S(a) => vec![*a],
            Val::V(a) => a.clone(),
            Val::M(a) => a.a.clone(),
            _ => vec![],
        }
    }
    pub fn finite(&self) -> bool {
        self.flat().iter().all(|x| x.is_finite())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Aic,
    Bic,
    Cooks,
    Cov,
    Deviance,
    Dispersion,
    Fisher,
    Hat,
    InflCoef,
    Leverage,
    LooExact,
    LrTest,
    LrAgainst,
    Ndf,
    NullLike,
    Predict,
    ResidDev,
    ResidDevStd,
    ResidPart,
    ResidPear,
    ResidPearStd,
    ResidResp,
    ResidStudent,
    ResidWork,
    ResidQuantile,
    Score,
    ScoreTest,
    ScoreAgainst,
    TestNdf,
    WaldTest,
    WaldAgainst,
    WaldZ,
    PLr,
    PWald,
    PExact,
    RSq,
    Rss,
}
pub const ALL_STATS: &[St] = &[
    St::Aic, St::Bic, St::Cooks, St::Cov, St::Deviance, St::Dispersion, St::Fisher, St::Hat, St::InflCoef,
    St::Leverage, St::LooExact, St::LrTest, St::LrAgainst, St::Ndf, St::NullLike, St::Predict, St::ResidDev,
    St::ResidDevStd, St::ResidPart, St::ResidPear, St::ResidPearStd, St::ResidResp, St::ResidStudent, St::ResidWork,
    St::ResidQuantile, St::Score, St::ScoreTest, St::ScoreAgainst, St::TestNdf, St::WaldTest, St::WaldAgainst,
    St::WaldZ, St::PLr, St::PWald, St::PExact, St::RSq, St::Rss,
];

/// Arguments for the statistics that take them.
#[derive(Clone, Debug)]
pub struct Args {
    pub params: Vec<f64>,
    pub px: Mat,
    pub poff: Option<Vec<f64>>,
    /// 0: standard layout, 1: column major, 2: strided view
    pub pl: u8,
}
impl Default for Args {
    fn default() -> Self {
        Args { params: vec![], px: Mat::zeros(0, 0), poff: None, pl: 0 }
    }
}

pub trait FitApi {
    fn result(&self) -> Vec<f64>;
    fn model_like(&self) -> f64;
    fn n_iter(&self) -> usize;
    fn history(&self) -> Vec<(Vec<f64>, f64)>;
    fn opt(&self) -> (usize, f64, f64, f64, Option<Vec<f64>>);
    fn stat(&self, s: St, a: &Args) -> Val;

    fn s(&self, s: St) -> f64 {
        match self.stat(s, &Args::default()) {
            Val::S(x) => x,
            o => panic!("HARNESS: {s:?} -> {o:?}"),
        }
    }
    fn v(&self, s: St) -> Result<Vec<f64>, LibErr> {
        match self.stat(s, &Args::default()) {
            Val::V(x) => Ok(x),
            Val::E(e) => Err(e),
            o => panic!("HARNESS: {s:?} -> {o:?}"),
        }
    }
    fn m(&self, s: St) -> Result<Mat, LibErr> {
        match self.stat(s, &Args::default()) {
            Val::M(x) => Ok(x),
            Val::E(e) => Err(e),
            o => panic!("HARNESS: {s:?} -> {o:?}"),
        }
    }
    fn at(&self, s: St, params: &[f64]) -> Val {
        self.stat(s, &Args { params: params.to_vec(), ..Default::default() })
    }
    fn fisher(&self, b: &[f64]) -> Mat {
        match self.at(St::Fisher, b) {
            Val::M(m) => m,
            o => panic!("HARNESS: {o:?}"),
        }
    }
    fn score(&self, b: &[f64]) -> Vec<f64> {
        match self.at(St::Score, b) {
            Val::V(m) => m,
            o => panic!("HARNESS: {o:?}"),
        }
    }
    fn lr_against(&self, b: &[f64]) -> f64 {
        match self.at(St::LrAgainst, b) {
            Val::S(m) => m,
            o => panic!("HARNESS: {o:?}"),
        }
    }
    fn predict(&self, x: &Mat, off: Option<&[f64]>, pl: u8) -> Vec<f64> {
        match self.stat(St::Predict, &Args { params: vec![], px: x.clone(), poff: off.map(|o| o.to_vec()), pl }) {
            Val::V(m) => m,
            o => panic!("HARNESS: {o:?}"),
        }
    }
}

fn rs<F: GF>(r: Result<F, RegressionError<F>>) -> Val {
    match r {
        Ok(x) => Val::S(d(x)),
        Err(e) => Val::E(ce(e)),
    }
}
fn rv<F: GF>(r: Result<Array1<F>, RegressionError<F>>) -> Val {
    match r {
        Ok(x) => Val::V(dv(&x)),
        Err(e) => Val::E(ce(e)),
    }
}
fn rm<F: GF>(r: Result<Array2<F>, RegressionError<F>>) -> Val {
    match r {
        Ok(x) => Val::M(dm(&x)),
        Err(e) => Val::E(ce(e)),
    }
}

macro_rules! quant {
    ($self:ident, yes) => {
        Val::V(dv(&$self.resid_quantile()))
    };
    ($self:ident, no) => {
        Val::Na
    };
}
macro_rules! lin_only {
    ($self:ident, $m:ident, yes) => {
        Val::S(d($self.$m()))
    };
    ($self:ident, $m:ident, no) => {
        Val::Na
    };
}

macro_rules! fit_impl {
    ($t:ty, $quant:tt, $lin:tt) => {
        impl<'a, F: GF + 'static> FitApi for Fit<'a, $t, F> {
            fn result(&self) -> Vec<f64> {
                dv(&self.result)
            }
            fn model_like(&self) -> f64 {
                d(self.model_like)
            }
            fn n_iter(&self) -> usize {
                self.n_iter
            }
            fn history(&self) -> Vec<(Vec<f64>, f64)> {
                self.history.iter().map(|s| (dv(&s.guess), d(s.like))).collect()
            }
            fn opt(&self) -> (usize, f64, f64, f64, Option<Vec<f64>>) {
                let o = &self.options;
                (o.max_iter, d(o.tol), d(o.l1), d(o.l2), o.init_guess.as_ref().map(dv))
            }
            fn stat(&self, s: St, a: &Args) -> Val {
                match s {
                    St::Aic => Val::S(d(self.aic())),
                    St::Bic => Val::S(d(self.bic())),
                    St::Cooks => rv(self.cooks()),
                    St::Cov => rm(self.covariance().map(|m| m.to_owned())),
                    St::Deviance => Val::S(d(self.deviance())),
                    St::Dispersion => Val::S(d(self.dispersion())),
                    St::Fisher => Val::M(dm(&self.fisher(&fv::<F>(&a.params)))),
                    St::Hat => rm(self.hat().map(|m| m.to_owned())),
                    St::InflCoef => rm(self.infl_coef()),
                    St::Leverage => rv(self.leverage()),
                    St::LooExact => rm(self.loo_exact()),
                    St::LrTest => Val::S(d(self.lr_test())),
                    St::LrAgainst => Val::S(d(self.lr_test_against(&fv::<F>(&a.params)))),
                    St::Ndf => Val::S(d(self.ndf())),
                    St::NullLike => Val::S(d(self.null_like())),
                    St::Predict => {
                        let x = fm::<F>(&a.px);
                        let off = a.poff.as_ref().map(|o| fv::<F>(o));
                        let r = match a.pl {
                            0 => self.predict(&x, off.as_ref()),
                            1 => {
                                let mut f = Array2::<F>::zeros((x.nrows(), x.ncols()).f());
                                f.assign(&x);
                                self.predict(&f, off.as_ref())
                            }
                            _ => {
                                let mut f = Array2::<F>::from_elem((2 * x.nrows(), x.ncols() + 1), fc(-77.));
                                f.slice_mut(s![..;2, 1..]).assign(&x);
                                self.predict(&f.slice(s![..;2, 1..]), off.as_ref())
                            }
                        };
                        Val::V(dv(&r))
                    }
                    St::ResidDev => Val::V(dv(&self.resid_dev())),
                    St::ResidDevStd => rv(self.resid_dev_std()),
                    St::ResidPart => Val::M(dm(&self.resid_part())),
                    St::ResidPear => Val::V(dv(self.resid_pear())),
                    St::ResidPearStd => rv(self.resid_pear_std()),
                    St::ResidResp => Val::V(dv(&self.resid_resp())),
                    St::ResidStudent => rv(self.resid_student()),
                    St::ResidWork => Val::V(dv(&self.resid_work())),
                    St::ResidQuantile => quant!(self, $quant),
                    St::Score => Val::V(dv(&self.score(fv::<F>(&a.params)))),
                    St::ScoreTest => rs(self.score_test()),
                    St::ScoreAgainst => rs(self.score_test_against(fv::<F>(&a.params))),
                    St::TestNdf => Val::S(self.test_ndf() as f64),
                    St::WaldTest => Val::S(d(self.wald_test())),
                    St::WaldAgainst => Val::S(d(self.wald_test_against(&fv::<F>(&a.params)))),
                    St::WaldZ => rv(self.wald_z()),
                    St::PLr => Val::S(d(self.pvalue_lr_test())),
                    St::PWald => rv(self.pvalue_wald()),
                    St::PExact => rv(self.pvalue_exact()),
                    St::RSq => lin_only!(self, r_sq, $lin),
                    St::Rss => lin_only!(self, rss, $lin),
                }
            }
        }
    };
}
fit_impl!(Linear, yes, yes);
fit_impl!(Linear<Affine>, yes, no);
fit_impl!(Logistic, no, no);
fit_impl!(Logistic<logistic_link::Cloglog>, no, no);
fit_impl!(Logistic<LogitT>, no, no);
fit_impl!(Logistic<HalfLogit>, no, no);
fit_impl!(Poisson, no, no);
fit_impl!(Poisson<SqrtL>, no, no);
fit_impl!(Poisson<LogT>, no, no);
fit_impl!(Binomial<1>, no, no);
fit_impl!(Binomial<2>, no, no);
fit_impl!(Binomial<7>, no, no);
fit_impl!(Binomial<40>, no, no);
fit_impl!(Exponential, yes, no);
fit_impl!(Exponential<exp_link::Log>, yes, no);
fit_impl!(Gamma, yes, no);
fit_impl!(Gamma<gamma_link::Log>, yes, no);
fit_impl!(Gamma<RecL>, yes, no);
fit_impl!(InvGaussian, no, no);
fit_impl!(InvGaussian<inv_gauss_link::Log>, no, no);

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub l1: f64,
    pub l2: f64,
    pub max_iter: Option<usize>,
    pub tol: Option<f64>,
    pub init: Option<Vec<f64>>,
    /// go through Model::with_options even when no initial guess is given
    pub via_options: bool,
}

pub struct DataView {
    pub x: Mat,
    pub y: Vec<f64>,
    pub off: Option<Vec<f64>>,
    pub w: Option<Vec<f64>>,
    pub f: Option<Vec<f64>>,
    pub n_obs: f64,
    pub n_eff: f64,
}

pub trait ModelApi {
    fn fit(&self, o: &Opts, k: &mut dyn FnMut(&dyn FitApi)) -> Result<(), LibErr>;
    fn data(&self) -> DataView;
}

macro_rules! model_impl {
    ($t:ty) => {
        impl<F: GF + 'static> ModelApi for ndarray_glm::model::Model<$t, F> {
            fn fit(&self, o: &Opts, k: &mut dyn FnMut(&dyn FitApi)) -> Result<(), LibErr> {
                let cfg = if o.init.is_some() || o.via_options {
                    let mut op = FitOptions::<F>::default();
                    op.l1 = fc(o.l1);
                    op.l2 = fc(o.l2);
                    if let Some(m) = o.max_iter {
                        op.max_iter = m;
                    }
                    if let Some(t) = o.tol {
                        op.tol = fc(t);
                    }
                    op.init_guess = o.init.as_ref().map(|v| fv::<F>(v));
                    self.with_options(op)
                } else if o.l1 == 0. && o.l2 == 0. && o.max_iter.is_none() && o.tol.is_none() {
                    let f = self.fit().map_err(ce)?;
                    k(&f);
                    return Ok(());
                } else {
                    let mut c = self.fit_options();
                    if o.l1 != 0. {
                        c = c.l1_reg(fc(o.l1));
                    }
                    if o.l2 != 0. {
                        c = c.l2_reg(fc(o.l2));
                    }
                    if let Some(m) = o.max_iter {
                        c = c.max_iter(m);
                    }
                    if let Some(t) = o.tol {
                        c = c.tol(fc(t));
                    }
                    c
                };
                let f = cfg.fit().map_err(ce)?;
                k(&f);
                Ok(())
            }
            fn data(&self) -> DataView {
                let q = &self.data;
                DataView {
                    x: dm(&q.x),
                    y: dv(&q.y),
                    off: q.linear_offset.as_ref().map(dv),
                    w: q.weights.as_ref().map(dv),
                    f: q.freqs.as_ref().map(dv),
                    n_obs: d(q.n_obs()),
                    n_eff: d(q.n_eff()),
                }
            }
        }
    };
}
model_impl!(Linear);
model_impl!(Linear<Affine>);
model_impl!(Logistic);
model_impl!(Logistic<logistic_link::Cloglog>);
model_impl!(Logistic<LogitT>);
model_impl!(Logistic<HalfLogit>);
model_impl!(Poisson);
model_impl!(Poisson<SqrtL>);
model_impl!(Poisson<LogT>);
model_impl!(Binomial<1>);
model_impl!(Binomial<2>);
model_impl!(Binomial<7>);
model_impl!(Binomial<40>);
model_impl!(Exponential);
model_impl!(Exponential<exp_link::Log>);
model_impl!(Gamma);
model_impl!(Gamma<gamma_link::Log>);
model_impl!(Gamma<RecL>);
model_impl!(InvGaussian);
model_impl!(InvGaussian<inv_gauss_link::Log>);

/// How the builder is called. Normal cases use the default; the validation property uses the rest.
#[derive(Clone, Debug, Default)]
pub struct BuildSpec {
    pub twice_off: bool,
    pub twice_vw: bool,
    pub twice_fw: bool,
    /// order in which builder methods are chained
    pub order: u8,
}

/// Owner of the design matrix together with the view layout requested by the case.
struct XStore<F> {
    base: Array2<F>,
    kind: u8,
    n: usize,
    p: usize,
}
impl<F: GF> XStore<F> {
    fn new(c: &Case) -> Self {
        let (n, p) = (c.x.len(), c.p);
        let kind = c.layout % 7;
        let at = |i: usize, j: usize| fc::<F>(c.x[i][j]);
        let junk = fc::<F>(1234.5);
        let base = match kind {
            0 => Array2::from_shape_fn((n, p), |(i, j)| at(i, j)),
            1 => {
                let mut a = Array2::<F>::zeros((n, p).f());
                for i in 0..n {
                    for j in 0..p {
                        a[[i, j]] = at(i, j);
                    }
                }
                a
            }
            2 => Array2::from_shape_fn((n, p), |(i, j)| at(n - 1 - i, j)), // reversed rows
            3 => Array2::from_shape_fn((p, n), |(j, i)| at(i, j)),         // transposed
            4 => {
                // every other row and column
                let mut a = Array2::<F>::from_elem((2 * n, 2 * p), junk);
                for i in 0..n {
                    for j in 0..p {
                        a[[2 * i, 2 * j]] = at(i, j);
                    }
                }
                a
            }
            5 => {
                // a window of a larger column-major array
                let mut a = Array2::<F>::from_elem((n + 2, p + 2).f(), junk);
                for i in 0..n {
                    for j in 0..p {
                        a[[i + 1, j + 1]] = at(i, j);
                    }
                }
                a
            }
            _ => Array2::from_shape_fn((n, p), |(i, j)| at(i, p - 1 - j)), // reversed columns
        };
        XStore { base, kind, n, p }
    }
    fn view(&self) -> ArrayView2<'_, F> {
        match self.kind {
            2 => {
                let mut v = self.base.view();
                v.invert_axis(Axis(0));
                v
            }
            3 => self.base.t(),
            4 => self.base.slice(s![..;2, ..;2]),
            5 => self.base.slice(s![1..self.n + 1, 1..self.p + 1]),
            6 => {
                let mut v = self.base.view();
                v.invert_axis(Axis(1));
                v
            }
            _ => self.base.view(),
        }
    }
}
struct YStore<Y> {
    base: Array1<Y>,
    kind: u8,
    n: usize,
}
impl<Y: Clone> YStore<Y> {
    fn new(v: Vec<Y>, layout: u8) -> Self {
        let kind = layout % 7;
        let n = v.len();
        let base = match kind {
            2 | 6 => v.into_iter().rev().collect(),
            4 => v.into_iter().flat_map(|y| [y.clone(), y]).collect(),
            _ => v.into_iter().collect(),
        };
        YStore { base, kind, n }
    }
    fn view(&self) -> ArrayView1<'_, Y> {
        let _ = self.n;
        match self.kind {
            2 | 6 => {
                let mut v = self.base.view();
                v.invert_axis(Axis(0));
                v
            }
            4 => self.base.slice(s![..;2]),
            _ => self.base.view(),
        }
    }
}

macro_rules! go {
    ($t:ty, $F:ty, $c:expr, $sp:expr, $conv:expr, $k:expr) => {{
        let c: &Case = $c;
        let sp: &BuildSpec = $sp;
        let ys = YStore::new(c.y.iter().map($conv).collect::<Vec<_>>(), c.layout);
        let xs = XStore::<$F>::new(c);
        let yv = ys.view();
        let xv = xs.view();
        let mut b = ModelBuilder::<$t>::data(&yv, &xv);
        for step in 0..5u8 {
            match (step + sp.order) % 5 {
                0 => {
                    if let Some(o) = &c.off {
                        b = b.linear_offset(fv::<$F>(o));
                        if sp.twice_off {
                            b = b.linear_offset(fv::<$F>(o));
                        }
                    }
                }
                1 => {
                    if let Some(o) = &c.vw {
                        b = b.var_weights(fv::<$F>(o));
                        if sp.twice_vw {
                            b = b.var_weights(fv::<$F>(o));
                        }
                    }
                }
                2 => {
                    if let Some(o) = &c.fw {
                        let a: Array1<usize> = o.iter().map(|x| *x as usize).collect();
                        b = b.freq_weights(a.clone());
                        if sp.twice_fw {
                            b = b.freq_weights(a);
                        }
                    }
                }
                3 => {
                    if !c.icpt {
                        b = b.no_constant();
                    }
                }
                _ => {
                    if !c.std {
                        b = b.no_standardize();
                    }
                }
            }
        }
        let m = b.build().map_err(ce)?;
        $k(&m);
        Ok(())
    }};
}

macro_rules! by_float {
    ($t:ty, $c:expr, $sp:expr, $conv:expr, $k:expr) => {
        if $c.f32 { go!($t, f32, $c, $sp, $conv, $k) } else { go!($t, f64, $c, $sp, $conv, $k) }
    };
}
macro_rules! y_float {
    ($t:ty, $c:expr, $sp:expr, $k:expr) => {
        if $c.ytype % 2 == 1 {
            by_float!($t, $c, $sp, |y: &f64| *y as f32, $k)
        } else {
            by_float!($t, $c, $sp, |y: &f64| *y, $k)
        }
    };
}
macro_rules! y_bool {
    ($t:ty, $c:expr, $sp:expr, $k:expr) => {
        if $c.y.iter().all(|y| *y == 0. || *y == 1.) && $c.ytype % 3 == 0 {
            by_float!($t, $c, $sp, |y: &f64| *y == 1., $k)
        } else if $c.ytype % 3 == 2 {
            by_float!($t, $c, $sp, |y: &f64| *y as f32, $k)
        } else {
            by_float!($t, $c, $sp, |y: &f64| *y, $k)
        }
    };
}
macro_rules! y_uint {
    ($t:ty, $c:expr, $sp:expr, $k:expr) => {
        match $c.ytype % 5 {
            0 => by_float!($t, $c, $sp, |y: &f64| *y as u32, $k),
            1 => by_float!($t, $c, $sp, |y: &f64| *y as u64, $k),
            2 => by_float!($t, $c, $sp, |y: &f64| *y as usize, $k),
            3 if $c.y.iter().all(|y| *y < 256.) => by_float!($t, $c, $sp, |y: &f64| *y as u8, $k),
            _ => by_float!($t, $c, $sp, |y: &f64| *y as u16, $k),
        }
    };
}

/// Build the model described by the case and pass it to `k`.
pub fn build_with(c: &Case, sp: &BuildSpec, k: &mut dyn FnMut(&dyn ModelApi)) -> Result<(), LibErr> {
    match c.fam {
        Fam::Lin => y_float!(Linear, c, sp, k),
        Fam::LinAffine => y_float!(Linear<Affine>, c, sp, k),
        Fam::Logit => y_bool!(Logistic, c, sp, k),
        Fam::Cloglog => y_bool!(Logistic<logistic_link::Cloglog>, c, sp, k),
        Fam::LogitCustom => y_bool!(Logistic<LogitT>, c, sp, k),
        Fam::BernLogLin => y_bool!(Logistic<HalfLogit>, c, sp, k),
        Fam::Pois => y_uint!(Poisson, c, sp, k),
        Fam::PoisSqrt => y_uint!(Poisson<SqrtL>, c, sp, k),
        Fam::PoisCustom => y_uint!(Poisson<LogT>, c, sp, k),
        Fam::Bin1 => by_float!(Binomial<1>, c, sp, |y: &f64| *y as u16, k),
        Fam::Bin2 => by_float!(Binomial<2>, c, sp, |y: &f64| *y as u16, k),
        Fam::Bin7 => by_float!(Binomial<7>, c, sp, |y: &f64| *y as u16, k),
        Fam::Bin40 => by_float!(Binomial<40>, c, sp, |y: &f64| *y as u16, k),
        Fam::ExpNeg => y_float!(Exponential, c, sp, k),
        Fam::ExpLog => y_float!(Exponential<exp_link::Log>, c, sp, k),
        Fam::GamNeg => y_float!(Gamma, c, sp, k),
        Fam::GamLog => y_float!(Gamma<gamma_link::Log>, c, sp, k),
        Fam::GamRec => y_float!(Gamma<RecL>, c, sp, k),
        Fam::IgNeg => y_float!(InvGaussian, c, sp, k),
        Fam::IgLog => y_float!(InvGaussian<inv_gauss_link::Log>, c, sp, k),
    }
}

pub fn with_model<T>(c: &Case, k: impl FnOnce(&dyn ModelApi) -> T) -> Result<T, LibErr> {
    let mut k = Some(k);
    let mut out = None;
    build_with(c, &BuildSpec::default(), &mut |m| out = Some((k.take().unwrap())(m)))?;
    Ok(out.unwrap())
}

pub fn opts(c: &Case) -> Opts {
    Opts { l1: c.l1, l2: c.l2, max_iter: c.max_iter, tol: c.tol, init: None, via_options: false }
}

/// Build and fit with the case's own options.
pub fn with_fit<T>(c: &Case, k: impl FnOnce(&dyn FitApi) -> T) -> Result<T, LibErr> {
    with_fit_opts(c, &opts(c), k)
}
pub fn with_fit_opts<T>(c: &Case, o: &Opts, k: impl FnOnce(&dyn FitApi) -> T) -> Result<T, LibErr> {
    let mut k = Some(k);
    let mut out = None;
    with_model(c, |m| m.fit(o, &mut |f| out = Some((k.take().unwrap())(f))))??;
    Ok(out.unwrap())
}
