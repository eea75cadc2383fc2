"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
W = "pymultifracs/wavelet.py"; MR = "pymultifracs/multiresquantity.py"; MF = "pymultifracs/mfa.py"
SF = "pymultifracs/structurefunction.py"; CU = "pymultifracs/cumulants.py"; SP = "pymultifracs/mfspectrum.py"
ES = "pymultifracs/estimation.py"; UT = "pymultifracs/utils.py"; SG = "pymultifracs/signal.py"; PS = "pymultifracs/psd.py"
FA = "pymultifracs/fractal_analysis.py"; BI = "pymultifracs/bivariate/bimfa.py"
BC = "pymultifracs/bivariate/bivariate_cumulants.py"; BS = "pymultifracs/bivariate/bivariate_structurefunction.py"
FB = "pymultifracs/simul/fbm.py"; MW = "pymultifracs/simul/mrw.py"; PZ = "pymultifracs/simul/pzutils.py"; VZ = "pymultifracs/viz.py"

p("C01", "Coefficients never use padding: border and missing-sample masks are exact",
  "For every signal length, missing-sample pattern, wavelet and scale, wavelet_analysis reports a wavelet coefficient as a number only when the filter window that produces it lies fully inside the available data; positions within filter_length-1 of either end of the sequence filtered at that scale, and positions whose filter window touches a missing value, are reported as NaN, and no others are. Scale j always has floor(n/2^j) positions in time order, and the reported count nj of each realisation is its number of non-NaN coefficients.",
  ["inputs", "configurations"], "all signal lengths, wavelets, scales, numbers of realisations and missing-sample patterns",
  "The tests use one length (65536), one wavelet (db3) and never look at which coefficients are NaN; a shifted or shortened border mask only perturbs estimates inside their 0.1 tolerance.",
  [W, MR], [("border trimming and NaN propagation of the filter step", W + ":filtering"), ("valid counts", MR + ":add_values")],
  [("wt_coefs.values[j]", "coefficients of scale j, NaN = missing", W), ("wt_coefs.nj[j]", "valid count per realisation", MR)],
  ["wavelet_analysis(...).wt_coefs.values", "wavelet_analysis(...).wt_coefs.nj"])
p("C02", "Wavelet coefficients are the normalised, integrated pyramid transform",
  "At every scale j each non-missing wavelet coefficient equals, to rounding, the detail output of the pyramid filter bank of the chosen wavelet (decimated by two, odd phase, sign as documented by the high-pass filter negated) applied to the low-pass sequence of scale j-1, multiplied by 2^(j(1/2-1/normalization)) and by 2^(gamint*j). Consequently a polynomial trend of degree below the number of vanishing moments gives only zero coefficients.",
  ["inputs", "configurations"], "all signals, wavelets, normalisations, gamint values and scales",
  "The tests only look at regression slopes for normalization=1 and one wavelet; wrong phase, sign, per-scale factor or a filter mix-up at one scale can leave slopes within tolerance.",
  [W], [("filter step", W + ":filtering"), ("normalisation and fractional integration", W + ":wavelet_analysis"), ("coefficient-only path", W + ":_wavelet_coef_analysis")],
  [("wt_coefs.values[j]", "coefficients of scale j", W)], ["wavelet_analysis(...).wt_coefs.values"])
p("C03", "The analysed scale range is exactly what the data supports",
  "wavelet_analysis reports coefficients for the contiguous scales 1..J where J never exceeds decomposition_level(n, wavelet) and every reported scale has at least three non-missing coefficients in every realisation, stopping at the first scale that does not; leaders follow the same rule on their own counts. The returned j2_eff is the integer minimum of the requested j2 (if any) and the largest scale for which everything requested is available, and the coefficients and effective range do not depend on whether j1, j2 or the leader type changes, except through that rule.",
  ["inputs", "configurations"], "all signal lengths, wavelets, j2 requests (int, float, None), formalisms, missing-sample patterns",
  "Tests use one long signal where the j2 request always decides; the stopping rule and clamping near short signals are never reached.",
  [W], [("maximum level", W + ":decomposition_level"), ("stopping rule and j2_eff", W + ":wavelet_analysis")],
  [("j2_eff", "largest usable scale", W)], ["wavelet_analysis(...).j2_eff", "decomposition_level"])
p("C04", "Wavelet leaders are local suprema over all finer scales",
  "With p_exp=inf, the leader at position k of scale j is the largest absolute value among the non-missing reported wavelet coefficients located in the three neighbouring dyadic intervals k-1,k,k+1 of scale j at every scale from 1 to j, and it is NaN exactly when there is none; scale j has two leaders fewer than coefficients. Hence no leader is smaller than the coefficient of its own centre, or than any leader of a finer scale contained in it.",
  ["inputs", "configurations"], "all signals, missing patterns, wavelets, scales, realisations",
  "Tests only check c2 averaged over 50 realisations; leaders missing one child, one neighbour or one scale keep plausible log-cumulants.",
  [W], [("hierarchical maximum", W + ":_find_sans_voisin"), ("3-neighbour maximum", W + ":_compute_leaders")],
  [("wt_leaders.values[j]", "leaders of scale j", W)], ["wavelet_analysis(p_exp=inf).wt_leaders"])
p("C05", "Wavelet p-leaders are local lp norms, corrected by the estimated eta(p)",
  "With finite p_exp=p>0, the p-leader at position k of scale j is (2^-j * sum of 2^j' |d|^p)^(1/p) over the non-missing reported coefficients d of scales j'<=j located in the three neighbouring dyadic intervals, multiplied by ((1-2^(-j*eta))/(1-2^(-eta)))^(-1/p) where eta is the returned eta_p, the regression slope over j1..j2_eff of log2 of the mean |coefficient|^p of that realisation. If eta_p<=0 for some realisation the uncorrected p-leaders are returned together with eta_p and a warning; eta_p is None for the other formalisms.",
  ["inputs", "configurations"], "all signals, p in (0,inf) including p!=2, gamint, weightings, scale ranges",
  "Tests only use p_exp=2 with eta_p>0; every other p and the eta_p<=0 branch are never executed.",
  [W, SF], [("local lp sums", W + ":_compute_leaders"), ("finite-resolution correction", W + ":_correct_leaders")],
  [("eta_p", "wavelet scaling exponent at p", W)], ["wavelet_analysis(p_exp=p)"])
p("C06", "Realisations are analysed independently",
  "Analysing an array of several realisations gives for each of them the same coefficients, leaders, p-leaders, structure functions, cumulants, spectrum, hmin and H as analysing that realisation alone over the same scales, whatever the other realisations contain and in whatever order they come. The only coupling allowed is the common stopping scale and the common decision to skip the p-leader correction.",
  ["inputs", "configurations"], "all arrays of realisations (including ones that differ by orders of magnitude or in missing samples), all formalisms",
  "Tests average over 50 statistically identical realisations, so cross-talk, transposed broadcasting or dropped realisations go unnoticed.",
  [W, SF, CU, SP, ES, MF], [("broadcasting over the realisation axis", SF + ":_compute"), ("per-realisation weights", SP + ":_compute")],
  [], ["mf_analysis_full on (n, r) arrays"])
p("C07", "Every scale regression is the exact weighted least-squares line",
  "linear_regression returns, independently for every column, the unique slope and intercept minimising sum_j n_j (y_j - a x_j - b)^2, and the variance it reports is sum_j w_j^2/n_j of the slope weights w_j. Every exponent the library reports (zeta, log-cumulants, h(q), D(q), hmin, eta_p and their bivariate counterparts) is such a slope over exactly the scales j1..j2, weighted by the valid counts n_j when weighted is true and uniformly otherwise.",
  ["inputs", "configurations"], "all y, all positive weights, all scale ranges, weighted and unweighted, several realisations with different weights",
  "Tests only use weighted=True with one range per data set; an off-by-one scale range or wrong weights changes H by much less than the 0.1 tolerance.",
  [UT, SF, CU, SP, ES], [("closed form regression", UT + ":linear_regression"), ("scale slicing and weights", SF + ":_compute_zeta")],
  [], ["linear_regression", "StructureFunction.zeta", "Cumulants.log_cumulants", "MultifractalSpectrum.Dq/hq", "estimate_hmin"])
p("C08", "Structure functions, zeta(q) and H follow their definition",
  "For every multiresolution quantity and every exponent q, S(j,q) is the mean over the non-missing coefficients of |T(j,k)|^q at every available scale, logvalues is its base-2 logarithm, zeta(q) and intercept are the regression over j1..j2 of logvalues, and H = zeta(2)/2 - gamint, or None when 2 is not among the exponents. compute_hurst returns zeta(2)/2 and log2 S(j,2) from the same data.",
  ["inputs", "configurations"], "all coefficient sets (with NaN and zeros), all q (negative, fractional, zero, large, int or float), all scale ranges",
  "Tests only look at mean H over 50 realisations for fixed q; individual q branches of the power function and q sets without 2 are never checked.",
  [SF, UT, ES], [("moment computation", SF + ":_compute"), ("power special cases", UT + ":fast_power"), ("H", SF + ":_get_H"), ("Hurst", ES + ":compute_hurst")],
  [], ["StructureFunction", "compute_hurst"])
p("C09", "Cumulants and log-cumulants follow their definition at every order",
  "For every multiresolution quantity, C_m(j) is the m-th cumulant of the empirical distribution of log|T(j,k)| over the non-missing k for every order m up to n_cumul and every available scale, and the log-cumulant c_m is log2(e) times its regression slope over j1..j2. The attributes c1..c9, C1..C9 and M return exactly those rows, with M = -c2.",
  ["inputs", "configurations"], "all coefficient sets, all orders, all scale ranges and weightings",
  "Tests only look at c2 averaged over realisations; orders above 2 and the C_m(j) values are never looked at.",
  [CU, UT], [("moment/cumulant recursion", CU + ":_compute"), ("slopes", CU + ":_compute_log_cumulants"), ("attribute access", CU + ":__getattr__")],
  [], ["Cumulants"])
p("C10", "The multifractal spectrum is the Legendre pair of the scaling function",
  "For every multiresolution quantity and q, V(j,q) and U(j,q) are the means of log2|T| and of log2 of the escort weights under the q-escort distribution of the non-missing coefficients (U offset by log2 n_j), h(q) and D(q)-1 are their regression slopes over j1..j2. Hence U = qV - log2 S and D(q) = 1 + q h(q) - zeta(q) hold exactly for every q, D(0) = 1, and h is the derivative of zeta.",
  ["inputs", "configurations"], "all coefficient sets, all q, all scale ranges and weightings",
  "No test looks at the spectrum at all.",
  [SP, UT], [("escort weights and regressions", SP + ":_compute")], [], ["MultifractalSpectrum"])
p("C11", "hmin is the scaling exponent of the largest coefficients",
  "estimate_hmin returns, per realisation, the slope and intercept of the (optionally n_j-weighted) regression over scales j1..j2 of log2 of the largest absolute non-missing coefficient of each scale, with return_y also those logarithms; mf_analysis reports this value for coefficients and, separately, for leaders.",
  ["inputs", "configurations"], "all coefficient sets, scale ranges with j1>=1, weightings, realisations",
  "Tests only use hmin to choose gamint, with j1=1; a wrong value changes nothing they check.",
  [ES, MF], [("supremum regression", ES + ":estimate_hmin")], [], ["estimate_hmin", "MFractalVar.hmin"])
p("C12", "Estimates transform exactly under amplitude, trend, sign and integration changes",
  "Multiplying a signal by a non-zero constant c leaves every exponent (zeta, c_m, h(q), D(q), hmin, eta_p, H) unchanged and shifts only intercepts, C_1 and hmin intercept by the amount log|c| implies; adding a polynomial trend of degree below the number of vanishing moments changes nothing. Changing gamint by g shifts the coefficient-based zeta(q) by q*g, c_1 and hmin and h(q) by g, and leaves C_m>=2 slopes, D(q) and H unchanged.",
  ["inputs", "configurations"], "all signals, constants, trends, gamint changes, wavelets and formalisms",
  "No test compares two related analyses; these relations tie all components together at full signal size.",
  [W, SF, CU, SP, ES], [("homogeneity of the whole pipeline", W + ":wavelet_analysis"), ("gamint bookkeeping", SF + ":_get_H")], [], ["mf_analysis_full"])
p("C13", "Missing coefficients never influence any estimate",
  "Inserting any number of NaN entries anywhere in a multiresolution quantity (different positions and counts per scale and realisation) or permuting the coefficients within a scale changes none of: valid counts, structure functions, cumulants, spectrum, hmin and all regression outputs. For bivariate quantities the same holds when the two quantities are extended or permuted jointly.",
  ["inputs", "configurations"], "all coefficient sets and all NaN insertions and permutations, all q including 0",
  "The tests' NaN pattern is always the same symmetric border; a 0-th power or a sum that counts a NaN biases scale j by O(border/n_j) and stays within tolerance.",
  [MR, SF, CU, SP, ES, UT, BC, BS], [("NaN-aware means", SF + ":_compute"), ("0-th power of NaN", UT + ":fast_power"), ("all-NaN sums", UT + ":fixednansum"), ("valid counts", MR + ":add_values")],
  [], ["MultiResolutionQuantity.nj", "StructureFunction", "Cumulants", "MultifractalSpectrum", "estimate_hmin"])
p("C14", "Every analysis entry point returns a complete and consistent result",
  "For every combination of leader type, q given as None, list or array (with or without 2), n_cumul, weighting and minimal flag, mf_analysis_full returns dwt computed from the coefficients and lwt computed from the leaders (None exactly when p_exp is None), each field being equal to what the corresponding estimator returns for the same quantity, q, j1, j2_eff and weighting. The minimal variant fills only dwt.structure and lwt.cumulants, with the same values as the full one; result objects carry the formalism, scale list, valid counts and realisation count of the quantity they were computed from, structure functions also its gamint.",
  ["inputs", "configurations"], "all parameter combinations of mf_analysis_full, mf_analysis and minimal_mf_analysis",
  "Tests call one combination (array q containing 2, minimal=False, p_exp 2 or inf).",
  [MF, SF, CU, SP, MR], [("parameter routing", MF + ":mf_analysis"), ("minimal variant", MF + ":minimal_mf_analysis"), ("from_dict", MR + ":from_dict")], [], ["mf_analysis_full", "mf_analysis", "minimal_mf_analysis"])
p("C15", "Bivariate structure functions, coherence and zeta(q1,q2) follow their definition",
  "For two multiresolution quantities on the same positions, S(j,q1,q2) is the mean over positions valid in both of |T1|^q1 |T2|^q2, logvalues its base-2 logarithm, zeta(q1,q2) and intercept its regression over j1..j2; the coherence at each scale is mean(T1 T2)/sqrt(mean(T1^2) mean(T2^2)) with signs kept, so it lies in [-1,1], and is None when the exponents it needs are absent. zeta(q,0) and zeta(0,q) equal the univariate zeta(q) of each signal, analysing a signal with itself gives zeta(q1+q2) and coherence 1, and swapping the signals transposes every result.",
  ["inputs", "configurations"], "all pairs of coefficient sets, exponent grids (with different q1 and q2), scale ranges, weightings",
  "The bivariate test checks three numbers of leader cumulants only; structure functions and coherence are never looked at.",
  [BS, UT], [("joint moments", BS + ":_compute"), ("regressions", BS + ":_compute_zeta")], [], ["BiStructureFunction"])
p("C16", "Bivariate cumulants, rho and the bivariate spectrum follow their definition",
  "C_m0(j) and C_0m(j) equal the univariate cumulants of each signal's log-magnitudes, C_11(j) is their covariance over positions, log-cumulants are log2(e) times the regression slopes; RHO_MF(j) is the correlation C_11/sqrt(C_20 C_02) in [-1,1] and rho_mf = -c_11/sqrt(c_20 c_02) where that product is positive (both None for wavelet coefficients). Swapping the signals transposes every result, a signal with itself has RHO_MF = 1, attributes cXY/CXY return the matching entries, and compute_legendre evaluates L(h1,h2) = 1 + (c02 (h1-c10)^2 + c20 (h2-c01)^2 - 2 c11 (h1-c10)(h2-c01)) / (2 (c20 c02 - c11^2)).",
  ["inputs", "configurations"], "all pairs of coefficient sets, orders, scale ranges, weightings, (h1,h2) grids",
  "Only c20, c02 and rho_mf of four fixed data sets are compared with 0.02-0.1 tolerance.",
  [BC, UT], [("joint cumulants", BC + ":_compute"), ("rho", BC + ":_compute_rho"), ("Legendre surface", BC + ":compute_legendre")], [], ["BiCumulants"])
p("C17", "Bivariate entry points return complete results for every configuration",
  "bivariate_analysis_full works for every leader type including the default coefficient-only one (lwt None exactly when p_exp is None), for exponents given, independently for either signal, as None (0, 1, 2), list or array, and any n_cumul >= 1, and its dwt and lwt hold exactly the bivariate estimators of the two coefficient (resp. leader) sets over j1..min of the two effective ranges. Quantities of different formalism, gamint or valid counts are rejected, never silently combined.",
  ["inputs", "configurations"], "all parameter combinations of bivariate_analysis_full and bivariate_analysis; pairs of unequal signals",
  "The single bivariate test uses p_exp=2 and array exponents 0,1,2; the default call is never made.",
  [BI, BC, BS], [("routing", BI + ":bivariate_analysis"), ("compatibility assertions", BC + ":__post_init__")], [], ["bivariate_analysis_full", "bivariate_analysis"])
p("C18", "A Signal object never returns a stale or mixed-up result",
  "After any sequence of method calls on a Signal, including failing ones and ones with changed parameters, every returned value equals what the corresponding stand-alone function returns for the object's data and the parameters of that call (and, for hurst, hmin and mf_analysis, of the most recent successful wavelet analysis); unsaved results do not replace saved ones and PSD requests never disturb the wavelet analysis. hurst, hmin and mf_analysis raise AttributeError until a wavelet analysis has succeeded.",
  ["histories", "inputs", "fault_sequences"], "all call sequences over all methods and parameter values, with failing calls anywhere in the sequence",
  "No test touches the Signal class; staleness needs specific multi-step histories.",
  [SG], [("parameter comparison before reuse", SG + ":same_params"), ("transform cache", SG + ":_wavelet_analysis"), ("PSD caches", SG + ":estimate_wavelet_psd"), ("mf cache", SG + ":mf_analysis")],
  [("wt_param/wt_transform", "parameters and result of the last wavelet analysis", SG), ("mf_param/multi_fractal", "saved analysis", SG), ("wt_psd_param/wt_psd", "wavelet PSD cache", SG), ("welch_param/welch_psd", "Welch cache", SG)],
  ["return values of Signal methods"])
p("C19", "Welch and wavelet power spectra follow their definition",
  "welch_estimation returns frequencies k*fs/n_fft for k=0..floor(n_fft/2) and four times the one-sided Hamming-window density per radian/sample averaged over half-overlapping un-detrended segments (zero-padded to n_fft; n_fft raised to seg_size, segments shortened to the signal). wavelet_estimation returns, for each scale j, frequency 0.75*fs/2^j and the mean square of the non-missing L1-normalised Daubechies coefficients with gamint 1/2; both are quadratic in amplitude and do not otherwise depend on fs.",
  ["inputs", "configurations"], "all signals, sampling frequencies, FFT lengths (odd too), segment lengths, wavelet orders",
  "No test covers psd.py.",
  [PS], [("Welch wrapper", PS + ":welch_estimation"), ("wavelet PSD", PS + ":wavelet_estimation")], [], ["welch_estimation", "wavelet_estimation"])
p("C20", "Scale/frequency conversion and exponent grids are exact and mutually consistent",
  "scale2freq(j,fs) = 0.75*fs*2^-j and freq2scale is its inverse; fband2scale returns exactly the first and last integer scale whose frequency lies in the band, in agreement with the frequency axis of the wavelet PSD. build_q_log returns the sorted, duplicate-free, sign-symmetric union of the n log-spaced values from q_min to q_max, their opposites and {-2,-1,0,1,2}, and rejects non-positive bounds.",
  ["inputs"], "all scales, frequencies, sampling rates, bands and q grids",
  "No test covers these helpers.",
  [UT, PS], [("conversions", UT + ":scale2freq"), ("band", UT + ":fband2scale"), ("q grid", UT + ":build_q_log")], [], ["scale2freq", "freq2scale", "fband2scale", "build_q_log"])
p("C21", "The spectral slope fit uses exactly the requested band and recovers power laws",
  "estimate_beta returns the ordinary least-squares slope (beta), intercept (log_C) and log-frequency support of log PSD against log frequency over exactly the non-zero frequencies within the closed band, in the chosen log base, so it recovers the exponent and constant of any exact power law and beta is independent of log base and amplitude. fractal_analysis and Signal.fractal_analysis equal this fit on the wavelet PSD.",
  ["inputs", "configurations"], "all spectra, bands (including ones containing frequency 0 or touching grid points), both log bases",
  "No test covers fractal_analysis.py.",
  [FA, PS], [("band selection and regression", FA + ":estimate_beta"), ("log and zero removal", PS + ":_log_psd")], [], ["estimate_beta", "fractal_analysis"])
p("C22", "Synthesised fGn/fBm has exactly the prescribed covariance",
  "For both synthesis methods fgn is a linear function of the driving white noise (the supplied z0, or noise drawn from numpy's global generator) whose covariance is exactly dt^(2H) sigma^2/2 (|k+1|^2H + |k-1|^2H - 2|k|^2H) at lag k (dt=1/N by default), realisations use disjoint noise columns, and fbm is the cumulative sum of fgn along time. Integer shapes give (N,) arrays and (N,R) shapes give (N,R) arrays; H outside [0,1] and unknown methods are rejected.",
  ["inputs", "configurations"], "all N, R, H, sigma, dt, both methods, all noise inputs",
  "Tests check shapes and, through noisy estimation, one method's H; the Cholesky method, supplied noise and exact covariance are never checked.",
  [FB, PZ], [("circulant embedding", PZ + ":gaussian_cme"), ("Cholesky", PZ + ":gaussian_chol"), ("covariance and shapes", FB + ":fgn")], [], ["fgn", "fbm"])
p("C23", "Synthesised multifractal random walks follow their construction",
  "mrw is the cumulative sum of fGn increments (Hurst H, scale sigma) times exp(w - mean(w) - lam^2 log(L)/2) with w a stationary Gaussian process of covariance lam^2 log(L/(k+1)) for lags k<L and 0 beyond, each realisation from its own noise; mrw_cumul(c1,c2) is mrw with H = c1+c2, lam = sqrt(-c2), forwarding all other options. skewed_mrw additionally subtracts the causal convolution K0/tau^alpha/dt^beta of past increments (its mirror uses the negated increments), mrw2D returns a field and increments with the field equal to the |k|^-(H+1) Fourier filter of the increments, which are sigma times white noise times exp(w) with w of covariance lam^2 log(L/(1+d)) at distances 1+d<L on the torus. Invalid H or L are rejected.",
  ["inputs", "configurations"], "all shapes, parameters, methods and noise inputs",
  "Tests check shapes and, through noisy estimation, c2 of one configuration; skewed_mrw, mrw_cumul, mrw2D, the Cholesky method and supplied noise are never checked.",
  [MW, PZ], [("mrw assembly", MW + ":mrw"), ("log-correlated process", MW + ":gaussian_w"), ("skewness convolution", MW + ":skewness_convolution"), ("2-D field", MW + ":mrw2D")], [], ["mrw", "mrw_cumul", "skewed_mrw", "mrw2D"])
p("C24", "Calls are pure: inputs untouched, results repeatable and independent",
  "No analysis function modifies its input arrays or the quantities and results handed to it, and repeating a call after any other calls gives identical results; synthesis depends on nothing but its arguments and numpy's global random state, consumes that state identically each time, and leaves it untouched when all noise is supplied. No call changes settings of the process (numpy's error handling, warning filters, plot defaults, environment). Objects returned by earlier calls never change because of later calls.",
  ["histories", "inputs"], "all interleavings of library calls on shared inputs and shared intermediate results",
  "Each test makes fresh inputs and looks at a result once; in-place updates and aliasing need a second use of the same object.",
  [W, SF, CU, SP, ES, MF, UT, PS, FB, MW, BI], [("copy-on-write arithmetic", UT + ":fast_power"), ("p-leader correction in place on fresh arrays", W + ":_correct_leaders")], [], ["all public functions"])
p("C25", "Out-of-domain requests are reported, never silently mis-answered",
  "Requests outside the validity domain raise or warn: H outside [0,1], L larger than the length, unknown synthesis method, unknown formalism name, non-positive q bounds and Signal estimates before a wavelet analysis raise; a j2 above the maximum scale warns and is clamped, eta_p<=0 warns and skips the correction, a negative hmin warns unless warn=False. In-domain requests raise no warning or error.",
  ["inputs", "configurations"], "all parameter values on both sides of each domain boundary",
  "Tests check three rejections in simul only.",
  [W, ES, FB, MW, UT, MR, SG], [("level warning", W + ":_decomposition_level"), ("eta_p warning", W + ":_correct_leaders"), ("hmin warning", ES + ":estimate_hmin"), ("H and L validation", MW + ":mrw"), ("formalism validation", MR + ":__post_init__")], [], ["exceptions and warnings of public functions"])
p("C26", "Plots show exactly the computed estimates",
  "Every plotting method succeeds for every result it is offered for (any q list, any number of cumulants, repeated calls, one realisation) and draws one panel per requested exponent or order with the computed per-scale values, the fitted line from j1 to j2 with the reported slope and intercept and that slope in its legend; the spectrum plot draws (h(q),D(q)), the PSD plots draw the log of the computed spectra and the fitted slope, the bivariate spectrum plot the computed surface wherever it is non-negative over the support asked for, and plot_multiscale each subject's curve and their average over the common band. A file is written if and only if one is asked for, and holds the figure that was drawn.",
  ["inputs", "configurations", "histories"], "all q sets (containing 0 or not), orders, panel layouts, repeated plotting",
  "No test covers plotting.",
  [SF, CU, SP, PS, FA, SG, BC, BS, ES], [("panel layout", SF + ":plot"), ("cumulant panels", CU + ":plot"), ("log-log plot", PS + ":log_plot")], [], ["matplotlib axes contents after each plot call"])
p("C27", "Exactly multifractal data gives its theoretical exponents",
  "For a quantity that is a multiplicative cascade (scale j holds all products of top-j multipliers m_i, times 2^(s j)), and for a signal whose coefficients form such a cascade, every estimate equals its closed form whatever the scale range, weights, signs, order, missing entries, normalisation and entry point: zeta(q) = q s - log2 mean|m|^q, H = zeta(2)/2 - gamint, c_k = -log2(e) kappa_k(ln|m|) (plus s for k=1), (h(q),D(q)) the Legendre pair of zeta, hmin = s - log2 max|m|; likewise zeta(q1,q2), coherence, c_{m1m2} and rho of two such cascades, eta_p = zeta(p) with the p-leader structure function at q=p exactly scaling after correction, and the wavelet spectrum with slope beta = -zeta(2).",
  ["inputs", "configurations"], "all multipliers, amplitudes, scale ranges, weightings, normalisations, gamint values, numbers of realisations and entry points",
  "The tests compare averages over 50 random realisations with the theoretical H and c2 within 0.1; a systematic bias of an exponent, and every other exponent, is invisible to them.",
  [W, MF, SF, CU, SP, ES, BI, BC, BS, PS, FA, SG], [("estimates of one quantity", MF + ":mf_analysis"), ("p-leader correction", W + ":_correct_leaders"), ("pairs", BI + ":bivariate_analysis"), ("spectral slope", FA + ":estimate_beta")],
  [], ["mf_analysis", "mf_analysis_full", "Signal.mf_analysis_full", "bivariate_analysis", "fractal_analysis"])
p("C28", "Results depend on the numbers given, not on how they are stored",
  "For the same numbers every entry point returns the same result, up to rounding, whatever the memory order, strides, byte order, writability, memory mapping or wider type of its arrays (transposed, reversed, strided, read-only, big-endian, memory-mapped, integer or extended-precision signals, exponents and spectra; exponents as a list for the mf functions) and whether scalar parameters and shapes are Python or numpy numbers; with single-precision cells or scalars or 16-bit signals, up to their precision. The argument itself, including the storage around it, is left alone.",
  ["inputs", "configurations"], "all entry points, every representation of every argument, alone and mixed",
  "Every test passes C-contiguous float64 arrays and Python scalars; recordings arrive as transposed, memory-mapped, integer or single-precision arrays.",
  [W, SF, CU, SP, ES, MF, UT, PS, FA, SG, FB, MW, BI, BC, BS], [("list of exponents", MF + ":mf_analysis"), ("convolution of the signal", W + ":_correct_leaders"), ("segmented spectra", PS + ":welch_estimation"), ("shape of the realisations", FB + ":fgn")], [], ["all public functions taking arrays"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
