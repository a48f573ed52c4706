import json
F=[("C15","fee1640","exact leave-one-out (and any fit from a distant guess) of parameters above 1/tol, e.g. inverse Gaussian responses around 1e-12, returned the starting guess"),
("C01","1b0b616","responses with a variance below machine epsilon (inverse Gaussian or f32 gamma around 1e-6) were reported as fitted far from the optimum, or did not converge"),
("C05","d647cd4","standard errors, influence and score tests depended on the units of covariates of very different scales (inversion in the external basis)"),
("C11","c99db18","the null likelihood of responses at the upper edge of their range was NaN when rounding of the weighted average left the range"),
("C01","c28af55","constant columns (weighted variance at rounding level) were divided by a tiny standard deviation, giving arbitrary coefficients or singular fits"),
("C25","1e148d9","building a model where one observation carries all the weight panicked"),
("C01","d345025","a step with a NaN likelihood could be returned as the optimum"),
("C06","2c3035f","an observation with zero frequency outside the link's domain made the likelihood NaN"),
("C17","334e87f","Binomial<N> accepted counts above N"),
("C17","bca8a20","exponential, gamma and inverse Gaussian accepted NaN and infinite responses"),
("C17","24251c7","weights with the wrong number of entries panicked (or were broadcast) instead of BadInput"),
("C16","77800d3","pvalue_exact() of regularised models without intercept did not penalise the first covariate of reduced models"),
("C12","8586f22","deviance residuals of perfectly fit observations were NaN (slightly negative deviance terms)"),
("C11","34a70c6","r_sq() included the penalty of a regularised fit"),
("C18","c81352b","the history carried by a MaxIter error was in internal coordinates"),
("C09","7e5e62b","natural parameter and derivative of the cloglog link overflowed to infinity/NaN"),
("C10","5d92024","the Fisher information of L1 fits included the ADMM penalty parameter"),
("C11","909c95c","the null likelihood was NaN for responses at the edge of their domain"),
("C16","d520e3b","p-values panicked without residual degrees of freedom"),
("C09","3e65623","binomial likelihood overflowed for large linear predictors"),
("C24","aaf8244","zero-frequency observations with undefined deviance made deviance and dispersion NaN"),
("C16","f744755","pvalue_exact() reduced fits started from infeasible truncated parameters"),
("C25","bc32b97","undefined test statistics panicked in p-values"),
("C01","3e01ff2","singular designs without intercept started from an infeasible guess and failed or returned a non-optimum"),
("C25","988936c","null_like() panicked if the null fit with offsets did not converge"),
("C15","01a85b4","loo_exact() could start from an infeasible one-step guess"),
("C25","b1c996d","quantile residuals of a fit with infinite or NaN dispersion panicked"),
("C11","e408399","initial guesses ignored offsets in one-sided link domains, so feasible problems failed"),
("C02","b3d80ef","L1 fits from a guess of zero terminated before the first step, at a point violating the optimality conditions"),
("C02","6d5becd","L1 iterations left the domain of the link function and failed or returned infeasible coefficients"),
("C02","0c3ff1c","inactive coefficients of L1 fits were not exactly zero as documented"),
("C06","1d0c0c8","observations of zero frequency with a linear predictor outside of the domain of the link made the update equations, Fisher information and score NaN, so fits failed"),
("C18","e5effab","inactive coefficients of covariates on a large scale were zeroed although that lost the likelihood of a recorded step"),
("C25","1a0d295","the step search never ended with a tolerance of zero (the scale got stuck at a subnormal number)"),
("C25","f66bdc4","quantile residuals of gamma fits panicked for an infinite dispersion or an observation of zero variance weight"),
("C25","71152cf","quantile residuals of exponential fits panicked for an overflowed mean")]
K=[dict(status="known",property="C25",clause="panic for an extreme ratio of a gamma response to its mean",signature="XInvalid at ",what="resid_quantile() of a gamma fit panics (XInvalid, from gamma_lr of statrs) where a response is below 1e-290 or above 1e290 times its fitted mean")]
json.dump(K+[dict(status="fixed",property=p,what=f"fixed: property={p} {c} {w}") for p,c,w in F],open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"known_findings.json"),"w"),indent=1)
