#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
M, F, S, T, P, U, V, N, G = ("pxmcmc/%s.py" % x for x in
    "mcmc forward measurements transforms prior utils saving uncertainty plotting".split())
P_ = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P_.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Every saved record describes one single chain state",
 "For every sampler, whatever is saved in slot k (parameter vector, predictions, L2 misfit, prior value, log posterior) belongs to one and the same chain state: the predictions are the forward model of the saved parameters, the misfit and prior are those of that state, and the log posterior is -mu*prior - L2/2 of them. This holds after accepted and after rejected proposals alike. When real parameters are sampled the chain state itself stays real, and complex parameters or complex-data predictions are stored without loss.",
 ["histories", "inputs", "configurations"], "every sampler, every acceptance history, every operator/prior/tracked subset, every saved slot",
 "the tests only check that run() returns; no test reads a saved value", [M],
 [("state/prediction/score variables updated together", "MYULA.run, PxMALA.run, SKROCK.run"), ("recording", "PxMCMC._tracking, _initialise_tracking_arrays"), ("score", "PxMCMC.logpi")],
 ["chain, predictions, L2, prior, logposterior arrays of a sampler after run()"])
prop("C02", "Burn-in and thinning schedule of saved samples",
 "Counting chain iterations from 0, every sampler saves exactly the states reached at iterations nburn, nburn+ngap, nburn+2*ngap, ... (every iteration from nburn on when ngap is 0), in order, into consecutive slots starting from 0. The run stops as soon as nsamples states have been saved, so every slot is written exactly once. Acceptance, verbosity and tracking choices do not influence the schedule.",
 ["configurations", "histories"], "all nsamples, nburn, ngap, verbosity, tracked subsets and acceptance histories, for the three samplers",
 "one (nsamples, nburn, ngap) triple is run and nothing about the saved rows is asserted", [M],
 [("iteration counter i, saved counter j, save condition, loop condition", "MYULA.run, PxMALA.run, SKROCK.run")], ["writes into the saved arrays"])
prop("C03", "MYULA transition is the Moreau-Yosida Langevin step",
 "Each MYULA iteration (and each PxMALA proposal) moves from the current state x to x - (delta/lmda)*(x - prox(x)) - delta*grad(x) + sqrt(2*delta)*xi, where prox and the data-fidelity gradient are evaluated at x itself and the current step size is used. xi is a freshly drawn standard normal vector with one entry per parameter; for complex parameters its real and imaginary parts are independent standard normal vectors. MYULA always moves to the new point.",
 ["inputs", "histories", "configurations"], "all states, operators, priors, delta, lmda, real and complex parameters",
 "tests only check that the chain runs", [M], [("step formula", "MYULA.chain_step"), ("state threading", "MYULA.run, PxMALA.run")], ["successive chain states"])
prop("C04", "PxMALA accepts by Metropolis-Hastings and switches state atomically",
 "A PxMALA proposal y from state x is accepted exactly when log(u) < log q(x|y) + log pi(y) - log q(y|x) - log pi(x) for a fresh uniform u, with all four terms evaluated at the right points with the step size that generated the proposal. On acceptance all quantities of the chain (state, predictions, gradient, prox, scores) become those of y, on rejection all of them stay those of x. The acceptance trace gets exactly one entry per iteration: 1 for accepted, 0 for rejected.",
 ["histories", "inputs"], "all accept/reject histories, states and step sizes",
 "no test inspects acceptance decisions or the state after a rejection", [M], [("accept branch", "PxMALA.run"), ("acceptance_trace", "PxMALA.run")], ["chain, acceptance_trace"])
prop("C05", "PxMALA transition density is that of its proposal kernel",
 "The log transition density used in the acceptance ratio for stepping from x1 to x2 is, up to a constant shared by both directions, -||x2 - x1 - delta*gradlogpi(x1)||^2 / (4*delta), i.e. the density of the normal distribution proposals are actually drawn from (mean x1 + delta*gradlogpi(x1), variance 2*delta), for real and complex parameters.",
 ["inputs"], "all pairs of states, prox and gradient values, delta and lmda",
 "the function is never evaluated against a reference", [M], [("calc_logtransition", "PxMALA.calc_logtransition")], ["PxMALA acceptance ratio"])
prop("C06", "Step size adaptation stays bounded and confined",
 "The step size changes only in PxMALA with tuning switched on; MYULA, SKROCK and untuned PxMALA use the configured delta throughout. Tuning multiplies delta by 1 + (a - 1/2)/(i+1)^0.75 where a is 1 if iteration i accepted and 0 otherwise, and the result is always clamped into [1e-8*lmda, lmda/2]. The step size trace holds the initial value followed by one value per tuned iteration, and every run starts its step size and acceptance traces afresh.",
 ["histories", "configurations"], "all acceptance histories and configurations",
 "tests do not look at delta", [M], [("_tune_delta clamp", "PxMALA._tune_delta"), ("deltas_trace", "PxMALA.run")], ["delta, deltas_trace"])
prop("C07", "SKROCK implements the SK-ROCK Chebyshev recursion",
 "For s stages, eta=0.05, w0 = 1 + eta/s^2 and w1 = T_s(w0)/T_s'(w0), one SKROCK iteration computes K_0 = x, K_1 = x + mu_1*delta*gradlogpi(x + nu_1*sqrt(2 delta)*Z) + k_1*sqrt(2 delta)*Z with mu_1 = w1/w0, nu_1 = s*w1/2, k_1 = s*w1/w0, and K_j = mu_j*delta*gradlogpi(K_{j-1}) + nu_j*K_{j-1} + k_j*K_{j-2} with mu_j = 2*w1*T_{j-1}(w0)/T_j(w0), nu_j = 2*w0*T_{j-1}(w0)/T_j(w0), k_j = 1 - nu_j, and moves to K_s. gradlogpi is -(x - prox(x))/lmda - grad(x), and Z is one fresh standard normal draw per iteration (complex: independent real and imaginary parts) shared by all stages.",
 ["inputs", "configurations"], "all s >= 1, states, operators, priors and step sizes",
 "tests only run s=5 for absence of exceptions", [M, U], [("_recursion_coefs, _K_recursion, chain_step", "SKROCK"), ("_gradlogpi", "PxMCMC")], ["successive chain states"])
prop("C08", "Log posterior and its gradient describe the same posterior",
 "The log posterior of a state with predictions p is -mu*prior - (d-p)^H C^-1 (d-p)/2, and the data-fidelity gradient supplied to the samplers is the exact gradient of the second part: A^H C^-1 (p - d), where A is the full forward map from parameters to predictions. This holds in both the analysis and the synthesis setting.",
 ["inputs", "configurations"], "all data, covariances, operators, settings and states",
 "tests compare only output lengths", [M, F], [("logpi", "PxMCMC.logpi"), ("calc_gradg", "ForwardOperator._gradg_analysis/_gradg_synthesis"), ("forward", "ForwardOperator._forward_*")], ["logpi(), forward(), calc_gradg()"])
prop("C09", "Data errors define the inverse covariance",
 "A scalar error sigma gives the inverse covariance I/sigma^2, a vector of one error per datum gives diag(1/sigma_i^2) and a square matrix is taken as the covariance itself and inverted; this does not depend on whether the data are real or complex. Non-square matrices and vectors whose length differs from the data are rejected with an error.",
 ["inputs"], "all error specifications and data, real or complex",
 "only real data with a 0.1 scalar and a 0.1 constant vector are constructed", [F], [("_build_inverse_covariance_matrix", "ForwardOperator")], ["ForwardOperator(...).invcov"])
prop("C10", "Measurement operators and their adjoints are exact pairs",
 "For the identity, path-integral, harmonic weak-lensing and pixel weak-lensing measurement operators the adjoint map is exactly the conjugate transpose of the forward map, for every matrix, mask, galaxy weighting and bandlimit: it applies the adjoint of every stage of the forward map, in reverse order and with the same parameters. The path-integral and identity operators reject inputs whose length does not match their domain or range.",
 ["inputs", "configurations"], "all operators, masks, weights, bandlimits, real and complex inputs",
 "dot tests use real matrices, unit weights, one bandlimit, and compare absolute values only", [S], [("forward/adjoint pairs", "Identity, PathIntegral, WeakLensingHarmonic, WeakLensing")], ["forward(), adjoint()"])
prop("C11", "Wavelet transform methods agree with each other",
 "Forward, inverse and both adjoints of the spherical wavelet transform use one and the same set of wavelet parameters (bandlimit, scale parameter, minimum scale, directions, spin, multiresolution), each calls the library routine of its own kind (pixel or harmonic), and coefficients are split and joined at the same place: scaling coefficients first, then wavelet coefficients. The reported numbers of scaling, wavelet and total coefficients are those the transform really produces, and the identity transform returns its input unchanged in all four directions. Vectors of real and of complex numbers are accepted alike: the library, which takes complex arrays only, is always handed complex ones.",
 ["inputs", "configurations"], "all L, B, J_min, dirs, spin, pixel/harmonic, all inputs",
 "one (L, B, J_min), dirs=1, spin=0 and the pixel variant only", [T, U], [("params dict, fwd/inv/fwd_adj/inv_adj table", "SphericalWaveletTransform"), ("expand_mlm/flatten_mlm", U)], ["forward(), inverse(), forward_adjoint(), inverse_adjoint(), ncoefs"])
prop("C12", "Analysis and synthesis settings are validated and dispatched",
 "Only 'analysis' and 'synthesis' are accepted as settings by forward operators and priors; anything else raises on construction. In the synthesis setting predictions are measurement(inverse transform(x)) and there are as many parameters as wavelet coefficients; in the analysis setting they are measurement(x) and there are as many parameters as image pixels, L*(2L-1). The ready-made operators pass the user's bandlimit, scale parameter, minimum scale, directions, spin, data and errors unchanged to their parts.",
 ["configurations", "inputs"], "all settings (valid or not) and operator parameters",
 "invalid settings and non-default dirs/spin are never tried", [F, P], [("setting checks and dispatch", "ForwardOperator, L1"), ("constructor wiring", "SphericalWaveletTransformOperator, PathIntegralOperator")], ["constructor, forward(), nparams"])
prop("C13", "Soft and hard thresholding",
 "Soft thresholding maps every entry x to x/|x|*(|x|-T) where |x| > T and to exactly 0 where |x| <= T, entrywise for scalar or vector thresholds and for real or complex x, with no division by zero at x = 0. Hard thresholding keeps the entries whose magnitude reaches that of the int(T*n)-th largest one and zeroes all others.",
 ["inputs"], "all real/complex vectors and thresholds",
 "three small vectors, scalar thresholds", [U], [("soft, _sign, hard", U)], ["utils.soft, utils.hard"])
prop("C14", "Prior value and proximal map describe the same L1 prior",
 "The prior value is the weighted L1 norm sum_i w_i|x_i| and the proximal map is soft thresholding with threshold T*w_i, with the same weights w in both: 1 for the plain prior, the quadrature weights for the pixel-weighted prior and the power weights (2*pi^2*sin(theta)*peak^eta/(power*nsamples)) for the power-weighted prior. In the analysis setting both act on adj(x): the prior is ||adj(x)||_1 and the prox is x + fwd(soft(adj(x), T) - adj(x)). The spherical wavelet priors refuse the analysis setting.",
 ["inputs", "configurations"], "all samples, thresholds, weights and settings",
 "the tests only check that the prox runs, or a constant threshold with identity transforms", [P, U], [("prior, proxf, map_weights, T", "L1, S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights")], ["prior(), proxf()"])
prop("C15", "Caller-owned arrays and objects are never modified",
 "No public function, constructor or sampler run of the package modifies an array, list or object handed in by the caller: data, errors, masks, thresholds, start points, samples, coefficient vectors, maps, chains, parameter objects and their track lists are bit-for-bit the same afterwards. Thresholding and operators return results that can be used while the input is reused, except where a method is documented to return its input unchanged.",
 ["inputs", "histories"], "all entry points, argument types and call sequences",
 "no test compares an argument before and after a call", [M, F, S, T, P, U, V, N, G], [("copies before in-place writes", "soft, hard, plot_map, priors")], ["arguments after the call"])
prop("C16", "Start point handling",
 "A start point is used as the initial state exactly as given if it is a one-dimensional numpy array with one entry per parameter; other types or dimensions raise TypeError and other sizes raise ValueError before any iteration is made or anything is saved. Without a start point the initial state is a fresh Laplace draw of the right size, with an independent imaginary part when complex parameters are sampled. All samplers treat start points the same way.",
 ["inputs", "configurations"], "all start points and samplers",
 "one valid and one too short start point; the values used are not checked", [M], [("_initial_sample", "PxMCMC")], ["run(start_point)"])
prop("C17", "Exactly the tracked quantities are stored, whatever the verbosity",
 "For every subset of the trackable quantities a run completes and stores exactly those quantities, with one row per saved sample (one column per datum for predictions and per parameter for the chain); quantities not asked for are not stored. Verbosity only adds printed output: progress reporting never needs a quantity that is not tracked, and never changes the chain. Tuning and runtime parameters given by the user reach the sampler unchanged.",
 ["configurations"], "all 32 subsets of tracked quantities, all verbosities, all samplers",
 "only the default subset with verbosity 0", [M], [("_initialise_tracking_arrays, _tracking, _print_progress", "PxMCMC"), ("parameter copy", "PxMCMC.__init__")], ["attributes after run(), stdout"])
prop("C18", "Saved files hold the complete run under stable names",
 "Saving writes, to <outpath>/<filename>.hdf5, every quantity the sampler holds under its documented dataset name (logposterior, predictions, chain, L2s, priors, and acceptances and deltas for PxMALA) with exactly the sampler's values, and every parameter plus every extra keyword as an attribute. Quantities the sampler does not hold are skipped, the file is closed on every exit, and every dataset name read by the example plotting scripts is one that saving writes.",
 ["configurations", "fault_sequences"], "all samplers, tracked subsets, extra keywords; exceptional exits",
 "saving is not tested at all", [V, "experiments/earthtopography/plot.py", "experiments/phasevel/plot.py", "experiments/weaklensing/plot.py"], [("save_mcmc", V)], ["hdf5 file contents"])
prop("C19", "Randomness is fresh, confined and reproducible",
 "All randomness of the samplers comes from numpy's global generator, so seeding it fixes a run completely; the package never seeds, replaces or saves and restores that generator and uses no clock, process, hash-order or other hidden source. Every iteration draws its own noise and (PxMALA) its own uniform number, none of them is reused in a later iteration or drawn conditionally on verbosity or tracking.",
 ["histories", "configurations"], "all seeds, runs and configurations",
 "tests are unseeded and check no values", [M, F, S, T, P, U, V, N, G], [("np.random / scipy.stats draws", "MYULA.chain_step, PxMALA.run, SKROCK.chain_step, PxMCMC._initial_sample")], ["chain of two runs with the same seed"])
prop("C20", "Instances are independent of each other",
 "Samplers, operators, priors and parameter objects share no mutable state through the package: nothing the package does to one instance is visible in another one, in the defaults used by later constructions, or in module or class level state. In particular two samplers built from the same or from the default parameter object do not influence each other.",
 ["histories"], "all sequences of constructions and runs",
 "each test builds one fresh object", [M, F, S, T, P, U, V, N, G], [("default parameter objects and lists are never written", "PxMCMCParams, samplers"), ("no module or class level mutable state", "all modules")], ["second instance after using a first"])
prop("C21", "Silenced standard output is always restored",
 "Any helper of the package that silences standard output restores the very stream that was in place before, on normal and on exceptional exit of the silenced block, nested or not, and closes what it opened; exceptions propagate to the caller. The silenced wrappers map2alm and alm2map are otherwise the functions they wrap: every argument, keywords included, is passed on unchanged and their result is returned.",
 ["fault_sequences", "schedules"], "all exits (normal, exception) of silenced blocks",
 "no test raises inside a silenced block or looks at sys.stdout afterwards", [U, G], [("suppress_stdout try/finally", U)], ["sys.stdout after the call"])
prop("C22", "Coefficient vectors have one layout everywhere",
 "Packing puts the scaling coefficients first and then the wavelet coefficients scale by scale (column by column), and unpacking is its exact inverse, both for equally sized scales (any number of scales) and for the multiresolution layout; giving none or both of the size arguments raises. Prior weights, per-scale uncertainty maps and per-scale plots all traverse the coefficient vector in that order, consecutive scales without gap or overlap, each scale with the number of pixels of its own bandlimit.",
 ["inputs", "configurations"], "all coefficient vectors, numbers of scales and bandlimits",
 "shape of one example and one multiresolution example", [U, P, N, G], [("flatten_mlm, expand_mlm, _multires_bandlimits", U), ("map_weights", P), ("wavelet_credible_interval_range", N), ("plot_wavelet_maps", G)], ["packed vectors, weights, maps"])
prop("C23", "Credible intervals and credible regions",
 "The credible interval range of every parameter is its (1 - alpha/2) quantile minus its (alpha/2) quantile over the samples, per parameter and, for wavelet maps, per scale with the requested alpha. The credible region threshold is the alpha quantile of the log posteriors, and a sample belongs to the region exactly when its log posterior is at least the threshold, so the region holds a fraction 1 - alpha of the samples and contains the best one.",
 ["inputs"], "all chains, log posteriors and alpha",
 "uncertainty is not tested at all", [N], [("credible_interval_range, wavelet_credible_interval_range, credible_region_threshold, in_credible_region", N)], ["return values"])
prop("C24", "Chebyshev polynomials",
 "The Chebyshev helpers satisfy T_0=1, T_1=x, T_{k+1}=2xT_k-T_{k-1}; U_0=1, U_1=2x, U_{k+1}=2xU_k-U_{k-1}; and T_n' = n*U_{n-1} with T_0'=0, for every order and argument; negative orders raise ValueError.",
 ["inputs"], "all orders and arguments", "three points per function, negative orders never tried", [U], [("chebyshev1, chebyshev2, cheb1der", U)], ["return values"])
prop("C25", "Sphere geometry and quadrature helpers",
 "Pixel areas follow r^2*(cos(theta1)-cos(theta2))*(phi2-phi1) and caps 2*pi*r^2*(1-cos(theta)); the pixel area map of bandlimit L splits the first cap evenly over its ring and then, ring by ring, uses consecutive sample positions (last longitude closed at 2*pi), for every radius. Quadrature weights follow the MW construction (2/(1-m^2) for even m, +-i*pi/2 for m=+-1, 0 otherwise; folded onto the L rings and constant along rings), the sphere integral is the sum of weight times value, and SNR is 20*log10(||signal||/||noise||).",
 ["inputs"], "all bandlimits, radii, angles and fields", "one bandlimit, radius 1 only", [U], [("pixel_area, polar_cap_area, calc_pixel_areas, mw_weights, weights_theta, mw_map_weights, s2_integrate, snr", U)], ["return values"])
prop("C26", "Weak lensing model, masking and validation",
 "The harmonic lensing kernel is -sqrt((l+2)(l-1)/((l+1)l)) for l >= 2, monopole and dipole coefficients are always removed, and the Kaiser-Squires estimate divides by the same kernel. Masking keeps exactly the unmasked pixels in order and its adjoint puts them back with zeros elsewhere; galaxy counts weight pixels by sqrt(2*n/0.37^2). Bandlimits below 1, masks of the wrong shape, signals of the wrong shape and NaN signals raise ValueError.",
 ["inputs", "configurations"], "all bandlimits, masks, galaxy counts and signals", "dot tests cannot see a wrong kernel, weights or validation", [S], [("compute_harmonic_kernel, harmonic_mapping, harmonic_inverse_mapping, mask_forward, mask_adjoint, ngal_to_inv_cov, __init__", S)], ["return values, exceptions"])
prop("C27", "Plots show the data they are given",
 "Map plots show the given map (oversampled to bandlimit 256 by zero-padding its spectrum when asked, otherwise at its own bandlimit) with masked pixels blank, colour limits as requested or symmetric around zero, and return the figure. Evolution plots show minus the log posterior, the misfit and the prior in that order, each marked at the sample of highest log posterior, and per-scale plots label and draw scaling function first and then each wavelet scale.",
 ["inputs", "configurations"], "all maps, masks and options", "plotting is not tested at all", [G], [("plot_map, plot_wavelet_maps, plot_evolution, plot_chain_sample, _oversample", G)], ["arguments of the drawing calls"])
prop("C28", "Sky mask construction",
 "The sky mask is 1 everywhere except where the pixel's latitude or its galactic latitude is smaller in magnitude than the requested half width in degrees, where it is 0; the ecliptic/equatorial band and the galactic band are each applied to every pixel of the (L, 2L-1) grid.",
 ["inputs"], "all bandlimits and widths", "build_mask is not tested", [U], [("build_mask", U)], ["return value"])
prop("C29", "Saved samples converge to the posterior distribution",
 "For a long enough run the saved samples are distributed according to the posterior (PxMALA) or its Moreau-Yosida approximation up to discretisation bias (MYULA, SKROCK).",
 ["histories", "inputs"], "asymptotic in chain length, all posteriors", "statistical and asymptotic", [M], [("samplers", M)], ["chain"])
prop("C30", "Wavelet analysis followed by synthesis reconstructs the signal",
 "For every admissible L, B, J_min, dirs and spin and every band-limited signal, the inverse transform of the forward transform returns the signal, and the library routines named adjoint are numerically adjoint.",
 ["inputs", "configurations"], "all band-limited signals and wavelet parameters", "one random signal for one parameter set", [T], [("pys2let routines", T)], ["inverse(forward(x))"])
prop("C31", "Quadrature and pixel areas are exact to rounding",
 "For every bandlimit the pixel areas sum to 4*pi*r^2 and the quadrature integrates every band-limited function exactly up to floating point rounding.",
 ["inputs"], "all bandlimits and functions", "one bandlimit", [U], [("mw_map_weights, calc_pixel_areas", U)], ["return values"])
prop("C32", "Arguments left out mean the same documented defaults",
 "Every public constructor, sampler method and helper takes its arguments in the published order and requires no others, and an optional argument that is left out means the published default: the sampler parameters (lmda 3e-5, delta 1e-5, s 1, mu 1, 1e6 samples, burn-in 1e3, thinning 1e2, real parameters, verbosity 100, all scalar traces and the chain tracked), tuned step sizes in PxMALA, a random start point, one direction and spin 0 in every part that describes wavelets, decay exponent 1 of the power weights, thresholds 0.1, level 0.05 of all credible intervals and regions, unit radius, a mask of 20 degrees, no masks and galaxy counts, pixel space transforms, the plot options and the file name outputs.",
 ["inputs", "configurations"], "every public callable and every subset of arguments left out", "tests pass most arguments explicitly", [M, F, S, T, P, U, V, N, G], [("signatures", "all public callables")], ["behaviour of calls that leave arguments out"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P_:
            f.write(json.dumps(p) + "\n")
    print(len(P_), max(len(p["title"]) for p in P_))
