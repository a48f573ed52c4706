#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after editing: python3 tools/spec.py"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, tech="property-based testing"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, tech=tech))

GEN = "random design matrices (scales 1e-4..1e4, collinear, constant, lattice columns), responses, offsets, weights, penalties, layouts, both float types and 20 family/link combinations"
TRUST = "Trusts the harness' own closed-form families, dense linear algebra and Newton reference; ill-conditioned or near-degenerate problems are counted as skipped, and tolerances are derived from the rounding sensitivity of each quantity."

prop("C01", "A successful fit maximises the (ridge-penalised) likelihood",
 "Whenever fitting without an L1 penalty reports success, the returned coefficients are finite, lie where the likelihood is defined, and maximise the log-likelihood less half the L2 penalty times the squared slopes of the standardised covariates. The reported likelihood is the value of that objective at the returned coefficients.",
 ["inputs", "configurations"], "Every family and link, design matrix, response, offset, weights, L2 penalty, intercept and standardisation choice and float type for which the maximiser exists.",
 "Tests fit a few dozen fixed small data sets; optimality is a claim about every data set and about an iteration whose path (step halving, termination, starting guess) depends on the data.",
 ["src/irls.rs", "src/glm.rs", "src/regularization.rs", "src/model.rs"],
 [("IRLS step, step halving and termination", "src/irls.rs Irls::next, step_scale"), ("choice of the optimum from the history", "src/glm.rs Glm::regression"), ("initial guess", "src/glm.rs Glm::init_guess")],
 ["Fit::result", "Fit::model_like"],
 "The gap to the maximum is bounded by the Newton decrement of the reference model at the returned point. " + TRUST)
prop("C02", "L1 and elastic-net fits satisfy the subgradient optimality conditions",
 "With an L1 penalty, every slope of a successful fit either balances the gradient of the ridge-penalised likelihood against the L1 weight with its own sign, or is exactly zero with a gradient no larger than the L1 weight; the intercept is unpenalised. A penalty above the critical weight leaves the null model, and a zero penalty leaves the unpenalised fit.",
 ["inputs", "configurations"], "Every family with a concave likelihood, data set, L1 and L2 weight, with and without intercept and standardisation, for which the solver reports convergence.",
 "Tests compare a handful of problems with glmnet numbers; the ADMM splitting has state (dual variables, adaptive penalty) whose convergence to the right point must hold for every problem.",
 ["src/regularization.rs", "src/irls.rs"],
 [("ADMM soft threshold, dual update and stopping rule", "src/regularization.rs Lasso, ElasticNet"), ("augmented objective in the iteration", "src/irls.rs Irls::next")],
 ["Fit::result", "Fit::model_like"],
 "Checks Karush-Kuhn-Tucker conditions with a reference gradient at the solver's documented tolerance. " + TRUST)
prop("C03", "Well-posed problems are solved within the default iteration limit",
 "A full-rank, well-conditioned problem whose likelihood has an interior maximum at moderate parameters is fitted successfully with default options. It never ends in an iteration-limit, singular-matrix or bad-input error.",
 ["inputs", "configurations"], "Every family and link, data set generated from moderate true parameters, weights, offsets, and L2 or no penalty.",
 "Tests show convergence for the sampled data sets only; whether the damped iteration converges from the default guess is a question about all data sets.",
 ["src/irls.rs", "src/glm.rs", "src/regularization.rs"],
 [("default starting guess", "src/glm.rs Glm::init_guess"), ("step halving", "src/irls.rs step_scale"), ("termination tests", "src/irls.rs small_delta, small_delta_vec")],
 ["FitConfig::fit"],
 "Well-posedness is certified by the reference Newton solution (existence, conditioning, moderate linear predictors). " + TRUST)
prop("C04", "Internal standardisation is invisible without a penalty",
 "Without regularisation, building the model with or without internal standardisation gives the same coefficients, likelihoods, fitted values, covariance, hat matrix, residuals, tests and predictions in external coordinates.",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, intercept choice.",
 "Tests compare both settings for a few statistics of fixed data; every statistic transforms differently between the bases and must agree for all data, including weighted and no-intercept models.",
 ["src/data.rs", "src/fit.rs", "src/model.rs"],
 [("Standardizer transforms of coefficients, information and score", "src/data.rs Standardizer"), ("conversion at the public interface", "src/fit.rs Fit::new, fisher, score, covariance")],
 ["every public statistic of Fit"],
 "Metamorphic: two fits of the library against each other. Conditioning of both problems is bounded by the reference. " + TRUST)
prop("C05", "Fits transform consistently with the data",
 "Permuting observations, permuting covariates, affinely rescaling covariates (with an intercept) and changing the memory layout of the inputs permute or rescale the coefficients and per-observation statistics accordingly and leave invariant statistics unchanged. Under a penalty this holds for rescaling too when standardisation is on.",
 ["inputs", "configurations"], "Every family and link, data set, permutation, affine map, array layout (C, Fortran, strided, reversed views), weights, offsets and penalties.",
 "Tests use fixed data in one order and layout; equivariance quantifies over all of them.",
 ["src/data.rs", "src/fit.rs", "src/irls.rs", "src/model.rs"],
 [("standardisation", "src/data.rs Standardizer::from_dataset"), ("layout-insensitive linear algebra", "src/fit.rs fisher_inv, src/irls.rs irls_mat_vec")],
 ["Fit::result", "Fit::covariance", "Fit::hat", "residuals"],
 "Metamorphic: fits of the library against each other. " + TRUST)
prop("C06", "Frequency weights mean repeated observations",
 "Fitting with integer frequency weights gives the same coefficients, likelihoods, deviance, dispersion, degrees of freedom, tests and covariance as fitting the data with each row repeated that many times; residuals and fitted values of the copies equal those of the row, whose leverage is the sum of theirs, and deletion diagnostics agree for rows that are not repeated. A frequency of zero is equivalent to leaving the row out.",
 ["inputs", "configurations"], "Every family and link, data set, frequency vector including zeros, together with variance weights, offsets and penalties.",
 "Tests check one or two weighted data sets for some statistics; each statistic handles the frequencies separately.",
 ["src/data.rs", "src/fit.rs", "src/model.rs"],
 [("frequency sums", "src/data.rs freq_sum, apply_freq_weights, x_conj"), ("weights in statistics", "src/fit.rs")],
 ["every public statistic of Fit"],
 "Metamorphic: weighted against expanded data. " + TRUST)
prop("C07", "Variance weights scale the information of each observation",
 "A variance weight multiplies an observation's log-likelihood: a common factor of the weights (and of the penalties) multiplies likelihood, deviance, information and test statistics by itself and the covariance by its inverse, and leaves coefficients, fitted values, leverages, dispersion and the effective sample size unchanged. All-one weights are the same as none, and an integer weight acts as that many repetitions on every statistic which does not count observations.",
 ["inputs", "configurations"], "Every family and link, data set, positive weights, common factors, with frequency weights and offsets.",
 "Tests fix a few weight vectors; weights enter every statistic at a different place.",
 ["src/data.rs", "src/fit.rs"],
 [("variance weights", "src/data.rs apply_var_weights, sum_weights, n_eff"), ("dispersion", "src/fit.rs dispersion")],
 ["Fit::result", "Fit::covariance", "Fit::deviance", "Fit::dispersion"],
 "Metamorphic, with closed-form scalings. " + TRUST)
prop("C08", "Linear offsets are fixed contributions to the linear predictor",
 "Adding to the offsets any linear combination of the columns of an unpenalised model shifts the corresponding coefficients by its negative and leaves fitted values, likelihoods and information unchanged; a zero offset is the same as none. For the linear model an offset is equivalent to subtracting it from the response.",
 ["inputs", "configurations"], "Every family and link, data set, offset vector, combination, with weights; the constant combination also under a penalty.",
 "Tests use a few offsets on fixed data.",
 ["src/data.rs", "src/irls.rs", "src/glm.rs", "src/fit.rs"],
 [("offset in the linear predictor", "src/data.rs linear_predictor_std"), ("offset left out of the working target", "src/irls.rs irls_mat_vec"), ("null model with offsets", "src/fit.rs null_model_fit")],
 ["Fit::result", "Fit::null_like", "Fit::predict"],
 "Metamorphic: fits of the library against each other. " + TRUST)
prop("C09", "Links and families obey the exponential-family laws",
 "For every provided link the inverse undoes the link, the natural parameter is the canonical link of the mean with the stated derivative, and both are monotone; for every family the mean and variance are the first and second derivatives of the log-partition in the natural parameter and the saturated likelihood bounds the likelihood. Values stay finite and accurate over the whole representable domain.",
 ["inputs"], "All linear predictors and means in the domain of each provided family and link, including extreme magnitudes, in f32 and f64.",
 "Tests evaluate each function on a short fixed grid; overflow, cancellation and sign errors depend on the magnitude.",
 ["src/link.rs", "src/response", "src/math.rs", "src/glm.rs"],
 [("link functions and natural parameters", "src/response/*.rs Link and Transform impls"), ("mean, variance, log-partition, saturated likelihood", "src/response/*.rs Glm impls")],
 ["Link::func", "Link::func_inv", "Transform::nat_param", "Transform::d_nat_param", "likelihood, score and information of one-point models"],
 "Compared with independent closed forms evaluated stably in f64. " + TRUST)
prop("C10", "Score and Fisher information are the derivatives of the likelihood",
 "At any parameters the score is the gradient of the penalised log-likelihood and the Fisher information is the expected negative Hessian plus the L2 penalty, both in external coordinates; the information is symmetric and positive semidefinite.",
 ["inputs", "configurations"], "Every family and link, data set, parameter vector, weights, offsets, penalties, standardisation and intercept choices.",
 "Tests evaluate them at few points, mostly the optimum, where errors in the score can vanish.",
 ["src/fit.rs", "src/data.rs", "src/regularization.rs"],
 [("score and fisher", "src/fit.rs score, fisher, fisher_std"), ("basis change", "src/data.rs inverse_transform_score, inverse_transform_fisher"), ("penalty terms", "src/regularization.rs gradient, fisher")],
 ["Fit::score", "Fit::fisher"],
 "Reference formulas, differences of the library's own likelihood, and symmetry. " + TRUST)
prop("C11", "Likelihoods, deviance, null model and information criteria are consistent",
 "The likelihood at any parameters, the deviance, the null likelihood (the maximum over constant models), the likelihood-ratio statistic, AIC, BIC, R-squared and residual sum of squares have their documented values and relations; the deviance is nonnegative and an unpenalised fit is no less likely than its null model.",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, penalties.",
 "Tests check these for chosen data where special cases (offsets, weights, edges of the response domain) are sampled thinly.",
 ["src/fit.rs", "src/glm.rs", "src/data.rs"],
 [("deviance and criteria", "src/fit.rs deviance, aic, bic"), ("null model", "src/fit.rs null_model_fit"), ("likelihood ratio", "src/fit.rs lr_test, lr_test_against, r_sq, rss")],
 ["Fit::deviance", "Fit::null_like", "Fit::lr_test", "Fit::aic", "Fit::bic", "Fit::r_sq", "Fit::rss"],
 "Closed-form deviances independent of the library's subtraction of likelihoods. BIC under a penalty is not judged. " + TRUST)
prop("C12", "Residuals follow their definitions",
 "Response, Pearson, working, deviance, partial, standardised and quantile residuals equal their documented formulas at the fitted means, dispersion and leverage; squared deviance residuals sum to the deviance and carry the sign of the response residual.",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, penalties.",
 "Tests check fixed data sets and mostly canonical, unweighted cases.",
 ["src/fit.rs", "src/response", "src/link.rs"],
 [("residuals", "src/fit.rs resid_*"), ("link derivative adjustments", "src/link.rs Transform::adjust_errors_variance"), ("response distributions", "src/response/*.rs Response")],
 ["Fit::resid_*"],
 "Reference formulas at the library's coefficients. " + TRUST)
prop("C13", "The hat matrix is the influence of responses on fitted values",
 "The hat matrix has the documented form, leverages are its diagonal, lie between zero and one and sum (over the repeated observations) to the number of parameters without a penalty and to less with one; it is a projection for unpenalised fits, and for canonical links it is the derivative of the fitted values in the responses.",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, penalties, standardisation choices.",
 "Tests verify it on a few fixed designs.",
 ["src/fit.rs", "src/data.rs"],
 [("hat and leverage", "src/fit.rs hat, leverage"), ("weighted design", "src/data.rs x_conj")],
 ["Fit::hat", "Fit::leverage"],
 "Reference formula plus algebraic identities and re-fits with perturbed responses. " + TRUST)
prop("C14", "The covariance is the (sandwich) inverse information times the dispersion",
 "The covariance of the coefficients is the dispersion times the inverse information, or the sandwich of the data information between inverse penalised informations under a penalty; it is symmetric, positive semidefinite and gives the Wald z-statistics.",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, penalties, standardisation choices.",
 "Tests compare a few covariances with R.",
 ["src/fit.rs", "src/data.rs", "src/regularization.rs"],
 [("covariance", "src/fit.rs covariance, fisher_inv, wald_z")],
 ["Fit::covariance", "Fit::wald_z"],
 "Reference formula with condition-scaled tolerances. " + TRUST)
prop("C15", "Leave-one-out diagnostics agree with leaving observations out",
 "Cook's distances, influence coefficients and studentised residuals equal their documented one-step formulas; the exact leave-one-out coefficients maximise the likelihood of the remaining observations, and for the linear model the one-step influence is exact.",
 ["inputs", "configurations"], "Every family and link, data set with at least one spare observation, weights, offsets, penalties.",
 "Tests verify a few fixed data sets.",
 ["src/fit.rs"],
 [("influence", "src/fit.rs infl_coef, cooks, resid_student, dispersion_loo"), ("exact refits", "src/fit.rs loo_exact")],
 ["Fit::cooks", "Fit::infl_coef", "Fit::resid_student", "Fit::loo_exact"],
 "Reference formulas and optimality of each re-fit by the reference Newton decrement. " + TRUST)
prop("C16", "P-values are the tail probabilities of their statistics",
 "The omnibus p-value is the chi-squared tail of the likelihood ratio; Wald p-values are two-sided normal or Student tails of z; drop-one p-values are the chi-squared or F tails of the increase in deviance of the optimal model without that parameter. All lie in [0, 1].",
 ["inputs", "configurations"], "Every family and link, data set, weights, offsets, L2 penalties.",
 "Tests check a few data sets against R.",
 ["src/fit.rs"],
 [("p-values", "src/fit.rs pvalue_lr_test, pvalue_wald, pvalue_exact, dev_without_covariate")],
 ["Fit::pvalue_lr_test", "Fit::pvalue_wald", "Fit::pvalue_exact"],
 "Distribution functions implemented independently in the harness; reduced models fitted by the reference. " + TRUST)
prop("C17", "Invalid inputs are rejected with errors, valid ones accepted",
 "A response outside the family's domain, or arrays of inconsistent lengths, yield an error of the right kind from building the model, never a panic or a fit; every response inside the domain is accepted in each supported element type, and the model keeps the data as given.",
 ["inputs", "configurations"], "Every family, response vector with valid, invalid, boundary and non-finite entries at any position, array lengths, element types.",
 "Tests check single examples of invalid responses for some families.",
 ["src/model.rs", "src/response", "src/error.rs", "src/response.rs"],
 [("conversion of responses", "src/response/*.rs Yval::into_float"), ("length checks", "src/model.rs ModelBuilderData::build")],
 ["ModelBuilder::build", "error variants"],
 "The domain of each family is stated independently in the harness.")
prop("C18", "Iteration records and fit options mean what they say",
 "A fit reports as many iterations as history entries, each with the penalised likelihood of its coefficients in external coordinates, and returns the best of them; an iteration limit either leaves the result unchanged or yields an iteration-limit error carrying that history; starting from any feasible guess leads to the same optimum.",
 ["inputs", "configurations", "histories"], "Every family and link, data set, iteration limit, tolerance, initial guess, penalty.",
 "Tests inspect the record of single fits.",
 ["src/irls.rs", "src/glm.rs", "src/fit.rs", "src/fit/options.rs"],
 [("history and limit", "src/irls.rs step_with"), ("optimum selection and external history", "src/glm.rs regression, src/fit.rs Fit::new")],
 ["Fit::history", "Fit::n_iter", "RegressionError::MaxIter", "FitOptions"],
 "Compares histories of fits under different limits exactly, and likelihoods against the reference. " + TRUST)
prop("C19", "Predictions apply the inverse link to the external linear predictor",
 "Predicting any data gives the inverse link of the intercept plus the external coefficients times the covariates plus the offset, row by row; on the training data it equals the fitted values.",
 ["inputs", "configurations"], "Every family and link, training set, prediction rows and offsets, array layouts.",
 "Tests predict a few rows.",
 ["src/fit.rs", "src/glm.rs"],
 [("predict", "src/fit.rs predict")],
 ["Fit::predict"],
 "Reference inverse link at the library's coefficients. " + TRUST)
prop("C20", "Single and double precision agree",
 "A well-conditioned problem with exactly representable data gives the same coefficients and statistics in f32 as in f64, up to single-precision rounding amplified by the conditioning.",
 ["inputs", "configurations"], "Every family and link, data set representable in f32, weights, offsets and penalties, with moderate conditioning.",
 "Nearly all tests run in f64 only.",
 ["src/num.rs", "src/irls.rs", "src/fit.rs"],
 [("float-generic code and tolerances", "src/num.rs, src/irls.rs, src/fit/options.rs")],
 ["Fit::result", "statistics of Fit"],
 "Differential between the two instantiations. " + TRUST)
prop("C21", "User-defined links behave as the equivalent built-in links",
 "A custom link written through the public traits that is mathematically the same as a built-in one gives the same fit and statistics, and a custom link that is an affine transformation of a built-in one gives correspondingly transformed coefficients.",
 ["inputs", "configurations"], "Data sets, weights, offsets and penalties for custom links of each kind (canonical, non-canonical, affine).",
 "Tests check one custom link on one data set.",
 ["src/link.rs", "src/irls.rs", "src/fit.rs"],
 [("default and overridden link adjustments", "src/link.rs Transform"), ("use of natural parameter derivatives", "src/irls.rs irls_mat_vec")],
 ["Fit of Logistic<Custom>, Poisson<Custom>, Linear<Custom>"],
 "Differential between custom and built-in links. " + TRUST)
prop("C22", "Families agree where their models coincide",
 "Binomial<1> equals logistic regression; Binomial<N> equals logistic regression of the N unfolded outcomes; exponential regression has the coefficients of gamma regression; a gamma model with log link is equivariant under scaling of the response, the linear model under affine maps of it; and a constant-only model fits the mean.",
 ["inputs", "configurations"], "Data sets valid for both families, weights, offsets, penalties.",
 "No test compares families with each other.",
 ["src/response"],
 [("family definitions", "src/response/*.rs")],
 ["Fit::result", "Fit::deviance", "Fit::covariance"],
 "Differential between families of the library. " + TRUST)
prop("C23", "Statistics do not depend on the order or repetition of calls",
 "The value of every statistic of a fit is the same bit for bit whatever other methods were called before on it and however often; fitting the same model twice gives identical results, and neither fitting nor querying changes the model's data.",
 ["histories", "inputs", "configurations"], "Every sequence of calls of the public methods with arbitrary arguments, for every family and data set.",
 "Tests call each method once or twice in a fixed order; caching makes values depend on history if a cache is filled wrongly.",
 ["src/fit.rs"],
 [("lazily filled caches", "src/fit.rs OnceCell fields")],
 ["all public methods of Fit"],
 "Stateful: random call sequences against a fresh fit per call as the model.", "stateful property-based testing")
prop("C24", "Degrees of freedom and dispersion follow the weights",
 "The number of observations is the sum of frequencies, the effective sample size the squared weight sum over the sum of squared weights, residual degrees of freedom the observations less the parameters, and the dispersion one or the deviance over the weighted residual degrees of freedom.",
 ["inputs", "configurations"], "Every family and link, data set, frequency and variance weights.",
 "Tests check few weighted data sets.",
 ["src/fit.rs", "src/data.rs"],
 [("counts", "src/data.rs n_obs, n_eff, sum_weights"), ("dispersion", "src/fit.rs dispersion, ndf, test_ndf")],
 ["Fit::dispersion", "Fit::ndf", "Fit::test_ndf", "Dataset::n_eff"],
 "Closed forms. " + TRUST)
prop("C25", "No panics: fitting and every statistic return values or errors",
 "Building and fitting any finite data of consistent shape either succeeds or returns an error, and on a successful fit every public method returns a value or an error; nothing panics or fails to terminate, whatever the degeneracy of the data.",
 ["inputs", "configurations"], "All finite data including empty, single-row, constant, collinear, huge, tiny, perfectly fitted and separable data, zero weights and extreme options.",
 "Tests exercise few degenerate inputs.",
 ["src/fit.rs", "src/irls.rs", "src/data.rs", "src/regularization.rs", "src/response"],
 [("error propagation", "src/error.rs, src/fit.rs"), ("guards of degenerate cases", "src/data.rs Standardizer::from_dataset, src/fit.rs dispersion")],
 ["all public methods"],
 "Debug assertions and overflow checks are on; a 60 s watchdog decides termination.")
prop("C26", "Score, Wald and likelihood-ratio statistics are consistent",
 "The score and Wald statistics equal their quadratic forms at the given or null parameters, vanish at the optimum itself, are nonnegative, and coincide with the likelihood ratio for the linear model.",
 ["inputs", "configurations"], "Every family and link, data set, alternative parameters, weights, offsets, penalties.",
 "Tests check a few fixed data sets.",
 ["src/fit.rs"],
 [("tests", "src/fit.rs score_test, score_test_against, wald_test, wald_test_against, lr_test_against")],
 ["Fit::score_test", "Fit::wald_test", "Fit::lr_test_against"],
 "Reference quadratic forms. " + TRUST)
exec(open(os.path.join(here, "tools", "extra.py")).read()) if os.path.exists(os.path.join(here, "tools", "extra.py")) else None

impl = set(open(os.path.join(here, "tools", "implemented.txt")).read().split())
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": [],
     "notes": "All checks are one Rust program (harness/) linked against /repo; run.sh builds it from /repo's working tree and runs one property. ./run.sh replay FILE re-runs a minimised case. No hooks in /repo are needed."}
for p in P:
    if p["id"] in impl:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"] + " with shrinking (random structured generation against an oracle)",
            "level": "exploration", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    for l in open(os.path.join(here, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid;", len(P), "properties,", len(m["checks"]), "checks")
except ImportError:
    print("not validated")
