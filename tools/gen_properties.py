#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Payoffs have the contractual value for every spot and strike",
 "For every non-negative strike and every spot, a vanilla call/put pays max(S-K,0)/max(K-S,0), a digital call/put pays 1 exactly when S>K / S<K and else 0, a double digital pays 1 exactly when the spot lies in the closed interval between its lower and upper strike and else 0, and a floating-strike lookback call/put pays max(S-extreme,0)/max(extreme-S,0). A payoff is never negative, and constructing one with a negative or NaN strike, or with an option kind it does not support, throws std::invalid_argument. Calling a payoff with the wrong number of arguments throws std::logic_error instead of returning a number.",
 ["inputs"], "all IEEE doubles S, extreme, K, K_L, K_U and all payoff kinds (bit-precise floating point)",
 "The tests evaluate each payoff at two or three hand-picked spots; boundary spots (S==K, S==K_L, S==K_U, NaN strikes, huge values) are not reached.",
 ["src/payoff/"], [("Payoff::operator()","src/payoff/single_strike/payoff_vanilla.cpp, payoff_digital.cpp, double_strikes/payoff_double_digital.cpp, payoff_floating_strike_lookback.cpp"),("constructor validation","src/payoff/single_strike/base_payoff_single_strike.cpp, double_strikes/base_payoff_double_strikes.cpp")])

prop("C02", "Equality and cloning of payoffs, stock data and options are faithful",
 "Two payoffs are equal exactly when they are of the same class, kind and strike(s); two stock-data records exactly when price, volatility and (presence and value of) coupon agree; two options exactly when they are of the same option type, have the same maturity, equal payoffs, equal underlying stock data and, for barrier options, the same barrier level and direction. Equality is symmetric and != is its negation. A clone of a payoff equals the original and pays the same for every spot.",
 ["inputs"], "all pairs of payoffs / stock data / options over all (non-NaN) parameter values and all type combinations",
 "Tests compare a few fixed pairs; an equality that ignores one field, or one type combination, passes them.",
 ["src/payoff/","src/market_data/stock_data.cpp","src/option/base_option.cpp","include/option/path_dependent/barrier_option.h"],
 [("Payoff::operator== / compare / clone","src/payoff/"),("StockData::operator==","src/market_data/stock_data.cpp"),("Option::operator==","src/option/base_option.cpp")])

prop("C03", "Market data always holds valid values and rejects bad updates atomically",
 "At every moment every stored stock has a strictly positive price, a non-negative volatility and, if present, a coupon in [0,1] (none of them NaN), whatever sequence of additions and updates was attempted. An addition or update that is invalid, or that names an unknown ticker, throws std::invalid_argument and leaves every stored stock and the interest rate exactly as they were; a valid one stores exactly the given value for that ticker and changes nothing else. Reading an unknown ticker throws std::invalid_argument.",
 ["inputs","histories"], "all sequences of addStock/updateStockPrice/updateStockSigma/updateStockCoupon/setR (valid and invalid) up to the bound, over all doubles",
 "Tests try one invalid value per field on a fresh object and never look at the state left behind by a rejected update.",
 ["src/market_data/market_data.cpp","src/market_data/stock_data.cpp","include/market_data/market_data.h"],
 [("StockData::validate and setters","src/market_data/stock_data.cpp"),("MarketData::updateStock*/addStock","src/market_data/market_data.cpp")])

prop("C04", "Observers are notified exactly when their market data changes",
 "After a successful price, volatility or coupon update of a ticker, or a successful addition of a ticker that is already present, every live registered observer of that ticker is notified exactly once (per registration) and no observer of another ticker is; a rate change notifies every live registered observer exactly once. When an observer is notified the new value is already readable; a rejected update notifies nobody. A destroyed observer is never called, and removing expired observers never drops a live one. An observer may add or remove observers while it is being notified.",
 ["histories"], "all bounded histories of register / destroy / purge / update operations over several tickers and observers",
 "The tests register one observer and fire one notification; interleavings with destruction, purge and several tickers are not sampled.",
 ["src/market_data/market_data.cpp","src/option/base_option.cpp"],
 [("addObserver/removeObserver/notifyObserver(s)","src/market_data/market_data.cpp"),("Option::initialize and destructor","src/option/base_option.cpp")])

prop("C05", "Models, pricers and PDEs always use the current market data",
 "A simulation, Monte-Carlo price or PDE coefficient requested after any sequence of market updates (price, volatility, coupon, rate, or the stock added again) is computed with the values current at the time of the request: an object built before the updates gives the same result as one built after them. This holds for every stock model, Monte-Carlo pricer and the Black-Scholes PDE.",
 ["histories","inputs"], "all update sequences up to the bound with arbitrary values, for each model / pricer / PDE, given the same random draws",
 "No test updates the market between building a model or pricer and using it.",
 ["src/model/","src/solver/monte_carlo/","src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"],
 [("stockData_ pointer and marketData_->getR() read at simulation time","src/model/*.cpp"),("marketData_->getR() read at pricing time","src/solver/monte_carlo/*.cpp")])

prop("C06", "Factories build exactly the requested option or fail without side effects",
 "For valid parameters every option factory returns an option of the requested type whose ticker, maturity, payoff class, call/put kind, strike(s) and barrier level/direction are exactly the given ones, and registers it with the market data so that it is notified of its ticker's updates. A missing parameter, a parameter of the wrong type, an invalid strike or maturity (negative or NaN) or an unknown ticker makes it throw std::invalid_argument, and no option stays registered. A parameter object returns exactly the last value set for a name and throws std::invalid_argument for an absent name or another type.",
 ["inputs","configurations"], "all factories, call and put, all doubles for T/K/B, every subset of missing / mistyped parameters",
 "Only the European factory is tested, with one set of values.",
 ["include/option/base_factory_option.h","src/option/","include/option/parameter_object.h"],
 [("OptionFactory::createOption","include/option/base_factory_option.h"),("createSpecificPayoff/Option","src/option/*/factory_*.cpp"),("ParameterObject","include/option/parameter_object.h")])

prop("C07", "GBM and Heston paths follow the risk-neutral law",
 "Conditional on the past, each simulated GBM log-return is normal with mean (r-c-sigma^2/2)dt and variance sigma^2 dt with dt=T/steps, and each Heston log-return is normal with mean (r-c-V+/2)dt and variance V+ dt, correlated rho with the variance shock, where V+ is the non-negative part of the current variance; so the discounted, dividend-adjusted price is a martingale at every step. A path has exactly one positive price per step, starts from the current spot, uses fresh draws at every step, and the maturity price is the last price of a path.",
 ["inputs"], "all spots, volatilities, rates, coupons (present or absent), maturities, model parameters and all values of the random draws; number of steps up to the bound",
 "The models are not tested at all; statistical tests could not separate a small drift error from noise.",
 ["src/model/gbm_model.cpp","src/model/heston_model.cpp","src/model/base_model.cpp"],
 [("simulatePrices","src/model/gbm_model.cpp, src/model/heston_model.cpp")])

prop("C08", "Merton, Kou and Bates jump models are risk-neutral (compensated jumps)",
 "In the Merton, Kou and Bates models the number of jumps per step is Poisson(lambda dt), jump sizes are normal(muJ, sigmaJ) (Merton, Bates) or, per jump, exclusively either exponential(eta1) upward with probability p or exponential(eta2) downward otherwise (Kou), and the per-step log-return is the diffusion part plus the sum of those jumps with drift r-c-variance/2-lambda*(E[e^J]-1). Hence the discounted, dividend-adjusted price is a martingale. Parameters outside the model's domain (p outside [0,1], eta1 not above 1, eta2 not positive, non-positive sigmaJ, |rho|>1, non-positive v0, kappa or sigma_v for Bates) are rejected with std::invalid_argument.",
 ["inputs"], "all parameter values and all draw values; steps and number of jumps up to the bound",
 "The models are not tested at all, and a drift error of the size of the compensator is invisible to a sampled path.",
 ["src/model/merton_jump_diffusion_model.cpp","src/model/kou_model.cpp","src/model/bates_model.cpp"],
 [("simulatePrices","src/model/*.cpp"),("muJ_ in KouModel","src/model/kou_model.cpp")])

prop("C09", "Variance Gamma paths follow the risk-neutral variance-gamma law",
 "Each Variance-Gamma log-return is (r-c+omega)dt + theta*g + sigma*sqrt(g)*z with z standard normal and g gamma-distributed with mean dt and variance nu*dt, where omega = ln(1-theta*nu-sigma^2*nu/2)/nu for the volatility current at simulation time; hence the discounted, dividend-adjusted price is a martingale. Parameters for which nu is not positive, or for which the law has no finite mean (1-theta*nu-sigma^2*nu/2 <= 0) at construction, are rejected with std::invalid_argument.",
 ["inputs"], "all parameters (nu, theta, sigma, r, c, T) and all draws; steps up to the bound",
 "The model is not tested.",
 ["src/model/variance_gamma_model.cpp","src/random/distribution/gamma_distrib.cpp"],
 [("omega and gamma law","src/model/variance_gamma_model.cpp")])

prop("C10", "The inverse normal CDF is accurate, increasing and symmetric on (0,1)",
 "The standard normal inverse CDF throws std::invalid_argument outside the open interval (0,1) (also for NaN) and otherwise returns a value within 1e-8 of the true quantile (1e-9 in the tails, for tail probabilities between 1e-12 and 0.08), that never decreases in the quantile by more than this accuracy, is negative below 1/2, positive above 1/2, and antisymmetric: q(1-u) = -q(u).",
 ["inputs"], "every quantile in [1e-12, 1-1e-12] for accuracy, every double for the domain, sign and symmetry",
 "Not tested; a wrong coefficient or branch threshold changes only a narrow band of quantiles.",
 ["src/random/distribution/standard_normal_distribution.cpp"],
 [("Beasley-Springer-Moro","src/random/distribution/standard_normal_distribution.cpp")])

prop("C11", "Quasi-random streams deliver every coordinate once, in order, in [0,1]",
 "For every dimension, the i-th draw from a Sobol or Faure generator is the distribution's quantile of coordinate i mod dim of the (i div dim)-th point of the underlying low-discrepancy sequence started at the given seed, scaled to [0,1]: no coordinate is skipped, repeated, reordered or read out of bounds. A generator reports the dimension it was built with, and two generators built with the same dimension and seed deliver the same stream.",
 ["inputs","histories"], "arbitrary sequence values (the engine is an arbitrary integer stream), dimensions and number of draws up to the bound",
 "No test draws from a generator; off-by-one errors at the point boundary depend on dimension and draw count.",
 ["src/random/number_generator/sobol_quasi_random_generator.cpp","src/random/number_generator/faure_quasi_random_generator.cpp","src/random/number_generator/base_quasi_random_generator.cpp"],
 [("operator()","src/random/number_generator/*_quasi_random_generator.cpp")])

prop("C12", "Pseudo-random generators are seeded, reproducible and of valid dimension",
 "A pseudo-random generator built with a seed draws from a Mersenne Twister initialised with exactly that seed, so equal seeds give equal streams; built without a seed it is initialised from the operating system's entropy source. Every draw delegates to the requested distribution once, and consecutive draws advance one single stream. Any generator reports the dimension it was built with, and a dimension of zero is rejected with std::invalid_argument.",
 ["inputs","configurations"], "all 32-bit seeds, entropy values and dimensions",
 "The random module has no test.",
 ["include/random/number_generator/pseudo_random_generator.h","src/random/number_generator/base_generator.cpp","src/random/number_generator/pseudo_random_generator.cpp"],
 [("seed_ / generator_","include/random/number_generator/pseudo_random_generator.h"),("validateDim","src/random/number_generator/base_generator.cpp")])

prop("C13", "Distributions sample the law of their parameters and reject invalid ones",
 "Drawing from a normal(mu,sigma), standard normal, exponential(lambda), gamma(alpha shape, beta rate), Poisson(lambda) or uniform(a,b) object samples exactly that law: the engine-level sampler is invoked once with mean mu and deviation sigma, rate lambda, shape alpha and scale 1/beta, mean lambda, or bounds a and b. Non-positive or NaN sigma, lambda, alpha or beta, and a>=b, are rejected with std::invalid_argument. Asking for an inverse CDF that is not provided throws std::logic_error instead of returning a number.",
 ["inputs"], "all doubles for every parameter",
 "The random module has no test.",
 ["src/random/distribution/","include/random/distribution/"],
 [("constructors and operator()","src/random/distribution/*.cpp")])

prop("C14", "Single-path Monte-Carlo price is the discounted mean payoff",
 "For European, digital and double-digital options the Monte-Carlo price with N paths equals exp(-rT) times the arithmetic mean of the option's payoff at N maturity prices drawn from the stock model with the option's maturity, one draw per path. Every path counts exactly once, whatever N, and the price is linear in discounting by the current rate. The solver facade returns the pricer's value for its current N and throws std::logic_error without a pricer.",
 ["inputs"], "arbitrary simulated prices (the stock model is an arbitrary stub), rates, maturities, strikes; N up to the bound",
 "No Monte-Carlo pricer is tested; a dropped path or wrong discount is hidden by sampling noise.",
 ["src/solver/monte_carlo/mc_single_path.cpp","src/solver/monte_carlo/mc_solver.cpp"],
 [("calculatePrice","src/solver/monte_carlo/mc_single_path.cpp")])

prop("C15", "Asian Monte-Carlo prices average every monitoring date exactly once",
 "The arithmetic (geometric) Asian Monte-Carlo price equals exp(-rT) times the mean over the paths of the option's payoff at the arithmetic (geometric) mean of all simulated prices of the path, each monitoring date weighted equally.",
 ["inputs"], "arbitrary positive simulated paths, rates, maturities, strikes; N and steps up to the bound",
 "Not tested.",
 ["src/solver/monte_carlo/mc_asian.cpp"], [("calculatePrice and averaging hooks","src/solver/monte_carlo/mc_asian.cpp")])

prop("C16", "Barrier Monte-Carlo prices respect knock-in/knock-out and in-out parity",
 "An up (down) barrier is hit when some simulated price of the path is at or above (at or below) the barrier level; a knock-in pays the vanilla payoff of the final price exactly on the paths that hit and a knock-out exactly on those that do not, discounted and averaged over all paths. Consequently, for equal paths, knock-in plus knock-out equals the vanilla price.",
 ["inputs"], "arbitrary simulated paths, barrier levels, directions, call/put, strikes, rates; N and steps up to the bound",
 "Not tested; hits on the last date or exactly at the level are rare in samples.",
 ["src/solver/monte_carlo/mc_barrier.cpp","src/option/path_dependent/barrier_option.cpp"],
 [("checkHasCrossed/computePayoff","src/solver/monte_carlo/mc_barrier.cpp"),("isActive","src/option/path_dependent/barrier_option.cpp")])

prop("C17", "Lookback Monte-Carlo prices use the true path extreme",
 "A floating-strike lookback call (put) pays the final price minus the path minimum (the path maximum minus the final price), a fixed-strike call (put) pays the vanilla payoff of the path maximum (minimum), with extremes over all simulated dates, discounted by exp(-rT) and averaged over all paths.",
 ["inputs"], "arbitrary positive simulated paths, strikes, rates, maturities; N and steps up to the bound",
 "Not tested.",
 ["src/solver/monte_carlo/mc_lookback.cpp"], [("calculatePrice/computePayoff","src/solver/monte_carlo/mc_lookback.cpp")])

prop("C18", "American Monte-Carlo implements Longstaff-Schwartz cash flows exactly",
 "For any simulated paths and any regression outcome, the American price is exp(-r dt) times the mean of per-path cash flows obtained by backward induction from the maturity payoff: at each earlier simulated date every cash flow is discounted by one step exp(-r dt), except that a path whose exercise value is positive and strictly above its estimated continuation value is replaced by the exercise value. The continuation value is the regression of the one-step-discounted cash flows of exactly the in-the-money paths on the basis functions of their prices. This holds for full-path simulation and for backward (Brownian-bridge) simulation, which is chosen only for GBM with a pseudo-random generator.",
 ["inputs"], "arbitrary paths, regression coefficients, strikes, rates, call/put; N paths and steps up to the bound",
 "Not tested.",
 ["src/solver/monte_carlo/mc_american.cpp"], [("standardPrice / brownianBridgePrice","src/solver/monte_carlo/mc_american.cpp")])

prop("C19", "Monte-Carlo builders wire exactly what the user configured",
 "A pricer built by any Monte-Carlo builder prices the last option given with the last stock model, market data, regression and basis function given, and by default a 52-step GBM on that option's own ticker, also when the builder is reused for another option. Giving an option of another type throws std::invalid_argument and building without an option throws std::logic_error.",
 ["histories","configurations"], "all builders, all option types, all bounded call sequences of setOption/setStockPriceModel/setMarketData/build including reuse",
 "Not tested.",
 ["src/solver/monte_carlo/builder/"], [("setOption/build","src/solver/monte_carlo/builder/*.cpp")])

prop("C20", "Linear interpolation is exact, bracketed and clamped",
 "On any strictly increasing grid, linear interpolation returns the node value at every node, the straight-line value between neighbouring nodes (hence between the two node values), and the first/last value outside the grid; it never reads outside the data.",
 ["inputs"], "all strictly increasing grids up to the bound, all node values and all targets",
 "Not tested.",
 ["src/numerical_analysis/interpolation/linear_interpolation.cpp"], [("interpolate","src/numerical_analysis/interpolation/linear_interpolation.cpp")])

prop("C21", "Quadratic interpolation finds its interval and reproduces quadratics",
 "On any strictly increasing grid, quadratic interpolation returns the node value at every node, the first/last value outside the grid, the straight line in the first and last interval, and elsewhere the parabola through the interval's end points and the node to the left of it, so that values of a quadratic polynomial are reproduced exactly there. The interval search terminates and never reads outside the data, also for a NaN target (an exception).",
 ["inputs"], "all strictly increasing grids up to the bound, all node values and targets",
 "Not tested.",
 ["src/numerical_analysis/interpolation/quadratic_interpolation.cpp"], [("findInterval / quadraticInterpolation","src/numerical_analysis/interpolation/quadratic_interpolation.cpp")])

prop("C22", "The tridiagonal solver solves every tridiagonal system it accepts",
 "For every tridiagonal matrix A of size at least 2 whose leading principal minors do not vanish and every right-hand side b, the Thomas solver returns x with A x = b. A smaller matrix is rejected with std::invalid_argument.",
 ["inputs"], "all real entries, n from 1 up to the bound",
 "Not tested.",
 ["src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp"], [("solve","src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp")])

prop("C23", "The LU solvers solve every regular system and report singular ones",
 "For every regular square matrix A and right-hand side b, the partial-pivoting solver and the sparse LU solver return x with A x = b, also when leading minors vanish and rows must be exchanged. The sparse LU solver throws std::runtime_error for a structurally or numerically singular matrix instead of returning a number.",
 ["inputs"], "all real entries, n up to the bound",
 "Not tested.",
 ["src/numerical_analysis/linear_algebra/matrix_solver/"], [("solve","src/numerical_analysis/linear_algebra/matrix_solver/*.cpp")])

prop("C24", "Basis functions generate the named orthogonal polynomial families",
 "For every vector x and every number of functions n>=1, column k of the generated matrix is x^k for the monomial basis, and the k-th Chebyshev (first kind), Legendre or Laguerre polynomial of x for the others, with one row per element of x and n columns. A zero number of functions is rejected with std::invalid_argument.",
 ["inputs"], "all real x, vector length and number of functions up to the bound",
 "Not tested.",
 ["src/numerical_analysis/basis_function/"], [("generate","src/numerical_analysis/basis_function/*.cpp")])

prop("C25", "Regressions return the minimiser they advertise",
 "Least squares returns the minimiser of |A beta - y|; Ridge regression returns the beta with (A'A + lambda I) beta = A'y for every design matrix, response and lambda >= 0 for which that system is regular; Lasso returns the least-squares coefficients soft-thresholded at lambda. A negative or NaN lambda is rejected with std::invalid_argument.",
 ["inputs"], "all real entries and lambda; rows and columns up to the bound",
 "Not tested.",
 ["src/numerical_analysis/regression/"], [("solve","src/numerical_analysis/regression/ridge.cpp, lasso.cpp")])

prop("C26", "Black-Scholes PDE coefficients, payoff and boundaries match the model",
 "In time-to-maturity form the PDE has diffusion sigma^2 x^2/2, convection (r-c)x, reaction -r and zero source with the current market data, initial condition equal to the option payoff, and boundary values consistent with the model: 0 (call) or K exp(-r tau) (put) at x=0, and x exp(-c tau) - K exp(-r tau) (call) or 0 (put) at the right end, tau being the elapsed solver time. At tau=0 the boundary values agree with the payoff.",
 ["inputs"], "all spots, strikes, rates, coupons, volatilities and times",
 "Not tested.",
 ["src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"], [("coefficients and boundaries","src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp")])

prop("C27", "The finite-difference march covers exactly the time and space domain",
 "The grid has J equally spaced nodes from 0 to the domain end with the initial condition on them; solving performs exactly N-1 equal time steps and ends at the maturity (never one step more or fewer because of rounding), and the reported price is the interpolation of the final grid values at the current spot with the chosen interpolation. Solving is idempotent: asking for the price again returns the same value.",
 ["inputs"], "all domain sizes and maturities (bit-precise floating point for the time march), J and N up to the bound",
 "Not tested; whether rounding adds a step depends on the exact maturity and N.",
 ["src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp"], [("solve/calculateStepSizes","src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp")])

prop("C28", "FDM schemes perform exact theta-scheme steps with boundary data",
 "Each time step of the explicit, implicit and Crank-Nicolson solvers produces interior values satisfying (u_new-u_old)/dt = theta*(L u - f)_new + (1-theta)*(L u - f)_old with theta = 0, 1 and 1/2, where L is the central-difference discretisation of diffusion, convection and reaction evaluated at the matching time levels and u includes the boundary nodes, whose new values are the PDE's boundary values at the new time. Custom matrix solvers are honoured and used for the complete system.",
 ["inputs"], "arbitrary PDE coefficient, boundary and initial functions; J and N up to the bound",
 "Not tested.",
 ["src/solver/finite_difference_method/solver/one_factor/"], [("calculateInnerDomain / calculateBoundaryConditions","src/solver/finite_difference_method/solver/one_factor/*.cpp")])

prop("C29", "CIR variance schemes and user-chosen discretisations are honoured",
 "The Euler scheme advances the variance by kappa(theta-V+)dt + sigma_v sqrt(V+ dt) z with V+ the non-negative part of V, and Milstein adds sigma_v^2 dt (z^2-1)/4; neither ever takes the root of a negative number. A Heston or Bates model uses the discretisation it was given, and Euler only when none was given. Invalid Heston parameters (|rho|>1, negative v0 or sigma_v) are rejected with std::logic_error.",
 ["inputs","configurations"], "all parameters and draws, both models, with and without a user-chosen scheme; steps up to the bound",
 "Not tested.",
 ["src/model/discretization/","src/model/heston_model.cpp","src/model/bates_model.cpp"], [("update","src/model/discretization/*.cpp"),("constructor default","src/model/heston_model.cpp, bates_model.cpp")])

prop("C30", "Backward (Brownian-bridge) simulation has the conditional GBM law",
 "Given the price at t_{j+1}, the backward-simulated GBM log-price at t_j (relative to the spot) is normal with mean (t_j/t_{j+1}) times the later log-price and variance sigma^2 t_j (t_{j+1}-t_j)/t_{j+1}, using the current volatility and spot; it is positive for every draw. Models without a bridge throw std::logic_error instead of returning a price.",
 ["inputs"], "all spots, next prices, volatilities, times 0<=t_j<=t_{j+1}, draws",
 "Not tested.",
 ["src/model/gbm_model.cpp","src/model/base_model.cpp"], [("simulatePriceBackward","src/model/gbm_model.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
