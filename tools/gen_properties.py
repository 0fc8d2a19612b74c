"""Writes properties.jsonl from the table below (one place to edit the statements)."""
import json
import os

P = []


def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["hook_needed"] = None
    P.append(
        dict(id=id, title=title, statement=statement,
             quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=anchors)
    )


D = "diffstar/"
DP = "diffstar/diffstarpop/"
MSK = D + "kernels/main_sequence_kernels.py"
QK = D + "kernels/quenching_kernels.py"
HK = D + "kernels/history_kernel_builders.py"
DEF = D + "defaults.py"
UT = D + "utils.py"
SFH = D + "sfh_model.py"
MGAS = D + "mgas_model.py"
PUT = DP + "utils.py"
PDF = DP + "kernels/sfh_pdf_mgash.py"
SAT = DP + "kernels/satquenchpop_model.py"
DMG = DP + "kernels/defaults_mgash.py"
DPK = DP + "kernels/diffstarpop_mgash.py"
MC = DP + "mc_diffstarpop_mgash.py"
LOSS = DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"
NDH = DP + "sumstats/diffndhist.py"
SMHM = DP + "sumstats/smhm.py"
PAR = DP + "param_utils.py"
PRM = DP + "kernels/params/"
FH = D + "fitting_helpers/diffstar_fitting_helpers.py"
FU = D + "fitting_helpers/utils.py"
LSM = D + "data_loaders/load_smah_data.py"
LGA = D + "data_loaders/load_galacticus_sfh.py"
LEX = D + "data_loaders/extract_galacticus_sfh_data.py"
LUT = D + "data_loaders/utils.py"

add("C01", "Bounded galaxy parameters always lie inside their physical ranges",
    "For every unbounded parameter vector, the physical galaxy parameters obtained from it lie within the declared lower and upper limit of each parameter. The final (rejuvenated) quenching depth is never below the deepest drop and never above zero, i.e. drop <= rejuvenation <= 0, whichever conversion routine (per-galaxy, per-group or vectorised) is used.",
    ["inputs"], "all real unbounded vectors, all parameters, every conversion entry point",
    "tests evaluate the conversion at defaults and a handful of random draws; saturation, per-field bound mix-ups and the coupled rejuvenation bound hold or fail over an unbounded continuum",
    [DEF, MSK, QK, UT], [("per-field bounding sigmoids", MSK + ":_get_bounded_sfr_params"), ("quenching bounds with rejuvenation coupled to drop", QK + ":_get_bounded_q_params"), ("assembly", DEF + ":get_bounded_diffstar_params")],
    ["get_bounded_diffstar_params"])

add("C02", "Galaxy parameter transforms are exact mutual inverses",
    "Converting physical galaxy parameters to unbounded ones and back, or the other way round, is the identity for every field, over the whole open interior of the bounds. Field order and names are preserved, and the scalar, tuple and vectorised routines of each group define the same map; the packaged default unbounded parameters are the image of the packaged defaults.",
    ["inputs"], "all parameter vectors strictly inside the bounds; all fields; all transform entry points",
    "tests check round trips at a few random points to a loose tolerance; a wrong bound or slope in one direction that cancels at the sampled points, or is small, stays unseen",
    [DEF, MSK, QK, UT], [("logistic map", UT + ":_sigmoid"), ("its algebraic inverse", UT + ":_inverse_sigmoid"), ("assembly", DEF + ":get_unbounded_diffstar_params")],
    ["get_bounded_diffstar_params", "get_unbounded_diffstar_params"])

add("C03", "Population parameters stay inside their declared bounds, name by name",
    "For every unbounded population parameter vector each physical population parameter lies within the interval declared for the parameter of that name. Every declared interval is non-empty and contains the default value strictly inside.",
    ["inputs", "configurations"], "all real unbounded population vectors, all fields, all declared intervals and defaults",
    "tests draw a few random vectors; with some 92 fields gathered by position from several tables a swap of two fields with similar ranges is invisible to sampling",
    [DMG, PDF, SAT, PUT], [("bounds tables merged by name", PDF + ":SFH_PDF_QUENCH_PBOUNDS"), ("satellite bounds", SAT + ":SATQUENCHPOP_PBOUNDS"), ("bounding", PDF + ":get_bounded_sfh_pdf_params"), ("assembly", DMG + ":get_bounded_diffstarpop_params")],
    ["get_bounded_diffstarpop_params", "DIFFSTARPOP_PBOUNDS"])

add("C04", "Population parameter transforms are mutual inverses aligned by name",
    "Unbounding then bounding population parameters (and vice versa) is the identity for every field; the unbounded counterpart of a field is the one carrying its name and depends on that field alone. The unbounded defaults shipped are the image of the shipped defaults.",
    ["inputs", "configurations"], "all vectors strictly inside the bounds; all fields",
    "tests use loose tolerances at sampled vectors; field transposition between the merged component tables is a structural error over all inputs",
    [DMG, PDF, SAT, PUT], [("component gather by name", DMG + ":get_unbounded_diffstarpop_params"), ("per-field inverse", PDF + ":_get_u_p_from_p_scalar"), ("satellite per-field inverse", SAT + ":_get_unbounded_satq_param")],
    ["get_bounded_diffstarpop_params", "get_unbounded_diffstarpop_params", "DEFAULT_DIFFSTARPOP_U_PARAMS"])

add("C05", "Star formation rates never fall below the SFR floor",
    "Every star formation history the library returns is, at every time and for every parameter set, at least the package's minimum SFR, and is exactly the unfloored model value wherever that value exceeds the floor.",
    ["inputs"], "all parameters, halo histories, times, cosmology inputs; all public history entry points incl. Monte Carlo",
    "tests check positivity on sampled galaxies only; the floor matters in extreme corners (deep quenching, tiny haloes) tests rarely reach",
    [HK, SFH, MGAS, MC, DEF], [("floor", HK + ":_sfh_singlegal_scalar"), ("floor constant", DEF + ":SFR_MIN")],
    ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal", "calc_mgas_galpop"])

add("C06", "Quenching only suppresses star formation, within its stated depth",
    "The quenching factor is one before the event begins, falls to ten to the drop exactly at the quenching time, and equals ten to the rejuvenation value after the event ends; the event spans exactly its duration in log time, half on either side of the quenching time. In between it is continuous and stays between the deepest drop and one, so that for every allowed parameter set a history never exceeds its unquenched counterpart.",
    ["inputs"], "all times and all quenching parameters within bounds",
    "tests evaluate a few parameter sets on a time grid; boundary behaviour at the start, centre and end of the event and the upper bound hold pointwise on a continuum",
    [QK, HK], [("two-sided triweight event", QK + ":_jax_partial_u_tw_kern"), ("multiplicative factor", QK + ":_quenching_kern"), ("application", HK + ":_sfh_singlegal_scalar")],
    ["_quenching_kern", "_quenching_kern_u_params", "calc_sfh_singlegal"])

add("C07", "Stellar mass is the positive, non-decreasing time integral of the SFH",
    "Stellar mass at each output time is the trapezoidal integral, in solar masses, of the returned star formation history over the supplied times, started from the package's birth time with the minimum SFR. It is strictly positive and never decreases with time, for a single history and for populations alike.",
    ["inputs"], "all increasing time grids with at least two entries above the birth time; all non-negative histories",
    "tests compare one or two grids to loose tolerance; first-interval handling, units and monotonicity are statements over every grid",
    [UT, SFH, MGAS, LOSS, FH], [("cumulative trapezoid", UT + ":cumtrapz"), ("birth padding and unit conversion", UT + ":cumulative_mstar_formed")],
    ["cumulative_mstar_formed", "cumulative_mstar_formed_galpop", "calc_sfh_singlegal(return_smh=True)"])

add("C08", "Population calculations equal the single-galaxy calculation, per galaxy",
    "For every galaxy of a population, the population routines for star formation, stellar mass and gas return exactly what the single-galaxy routine returns for that galaxy's own parameters and halo. No galaxy's output depends on any other galaxy, and every galaxy-specific input is matched by position.",
    ["inputs"], "all population sizes and orderings, all parameters; SFH, SMH and gas outputs",
    "tests compare a handful of galaxies; leakage or axis mix-ups that need particular population sizes or parameter orders survive sampling",
    [SFH, MGAS, HK, UT], [("vmapped kernels", HK + ":_sfh_galpop_kern"), ("packing of parameters", SFH + ":calc_sfh_galpop"), ("gas population wrapper", MGAS + ":calc_mgas_galpop")],
    ["calc_sfh_galpop", "calc_mgas_galpop", "cumulative_mstar_formed_galpop"])

add("C09", "Asking for extra outputs never changes the star formation history",
    "The star formation history returned is identical whether or not stellar mass is requested and whether it comes from the star formation routine or the gas routine, for the same inputs; the stellar mass returned alongside is the same as well. Returned fields carry the quantity their name says.",
    ["inputs", "configurations"], "all inputs; all output options",
    "tests exercise each option on its own inputs; agreement between options for all inputs is a relational claim",
    [SFH, MGAS], [("optional stellar mass", SFH + ":calc_sfh_singlegal"), ("gas history", MGAS + ":calc_mgas_singlegal")],
    ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal", "calc_mgas_galpop"])

add("C10", "Histories are pointwise in time and causal",
    "The star formation rate at a time depends on the requested time grid only through that time, so refining, truncating or reordering the grid does not change it. Stellar mass and total gas at a time depend only on the times up to it.",
    ["inputs"], "all time grids and indices",
    "tests use one fixed grid; dependence on neighbouring entries is only visible by comparing grids over all inputs",
    [SFH, MGAS, HK, UT], [("scalar-time kernel mapped over time", HK + ":_sfh_singlegal_kern"), ("forward scan", UT + ":_cumtrapz_scan_func")],
    ["calc_sfh_singlegal", "calc_mgas_singlegal"])

add("C11", "Gas accounting closes: gas plus stars equals accreted baryons",
    "At every output time, gas mass plus stellar mass formed equals the baryon fraction times the time-integrated halo accretion, and the reported gas rate is the change of the reported gas mass per unit time in consistent units. Accreted baryons scale linearly with the baryon fraction (the integrator's birth-time floor apart) and halo accretion is the halo model's own rate for the same halo, times and present-day age.",
    ["inputs"], "all halos, parameters, grids and cosmology inputs; single and population",
    "tests check signs and shapes on a few galaxies; the identity is a statement about every input",
    [MGAS, UT], [("baryon accretion integral minus stars", MGAS + ":calc_mgas_singlegal"), ("population", MGAS + ":calc_mgas_galpop")],
    ["calc_mgas_singlegal", "calc_mgas_galpop"])

add("C12", "The main sequence follows the documented rolling power law of halo mass",
    "Before quenching, the star formation rate is the baryon fraction times the halo mass at that time times a mass-dependent efficiency that equals the pivot efficiency at the critical mass and rolls between the low- and high-mass slopes; each slope governs its own side of the pivot. After the halo's peak time the unquenched rate is constant, and the whole history scales linearly with the baryon fraction above the floor.",
    ["inputs"], "all halos, times and main-sequence parameters",
    "tests check a few parameter variations; the functional identity must hold for all inputs",
    [MSK, HK], [("efficiency", MSK + ":_sfr_eff_plaw"), ("main-sequence rate", MSK + ":sfh_ms_kernel")],
    ["calc_sfh_singlegal", "sfh_ms_kernel"])

add("C13", "Random draws use independent streams and nothing but the caller's key",
    "In every Monte Carlo routine each random draw consumes its own sub-stream derived from the key the caller passed; no sub-stream is consumed twice and the caller's key is not itself consumed after being divided. No hidden global random state takes part, so equal keys give equal results.",
    ["inputs", "histories"], "all keys, all populations, every Monte Carlo entry point",
    "a test can only compare runs; correlated streams pass any reproducibility test and statistical tests of correlations on samples are weak",
    [DPK, MC], [("key splitting", DPK + ":mc_diffstar_u_params_singlegal_kernel"), ("per-galaxy keys", MC + ":mc_diffstar_u_params_galpop")],
    ["mc_diffstar_sfh_galpop", "mc_diffstar_params_galpop", "mc_diffstar_sfh_singlegal"])

add("C14", "Population Monte Carlo equals per-galaxy Monte Carlo with split keys",
    "Each galaxy of a Monte Carlo population is exactly the single-galaxy realisation for that galaxy's halo, environment and sub-key (the i-th key of jax.random.split(ran_key, ngals)); all of parameters, histories, quenched fraction and quenched flag agree. No input of one galaxy reaches another.",
    ["inputs"], "all population sizes, halos, environments and keys",
    "tests compare summary statistics; per-galaxy identity over all inputs is relational",
    [MC, DPK], [("vectorised kernel", MC + ":mc_diffstar_u_params_galpop_kernel"), ("key division", MC + ":mc_diffstar_u_params_galpop")],
    ["mc_diffstar_sfh_galpop", "mc_diffstar_params_galpop", "mc_diffstar_u_params_galpop"])

add("C15", "Quenched fractions are probabilities and satellites are never less quenched",
    "For all allowed population parameters, masses, peak times and infall histories the quenched fractions of centrals and satellites lie between zero and one. Environmental quenching of satellites only ever raises the satellite baseline, vanishes long before infall delay and saturates at the declared maximum, never exceeding one.",
    ["inputs"], "all population parameters within bounds; all halo and infall properties",
    "tests check a grid of random values; a fraction slightly outside the range for some corner parameters is not sampled",
    [PDF, SAT, DPK], [("central and satellite fraction models", PDF + ":_frac_quench_cen"), ("satellite boost", SAT + ":get_qprob_sat")],
    ["_diffstarpop_means_covs", "get_qprob_sat", "mc_diffstar_params_singlegal"])

add("C16", "The quenched flag is a Bernoulli draw with the returned quenched fraction",
    "A galaxy is flagged quenched exactly when a uniform variate on [0,1), drawn for that purpose only, falls below the very quenched fraction returned to the caller. A fraction of zero therefore never quenches and a fraction of one always does.",
    ["inputs"], "all keys and inputs; all Monte Carlo entry points",
    "frequency tests on finite samples cannot distinguish an inverted edge, a shared variate or a fraction other than the returned one when the two are close",
    [DPK, MC], [("uniform draw compared to fraction", DPK + ":mc_diffstar_u_params_singlegal_kernel")],
    ["mc_diffstar_params_singlegal", "mc_diffstar_sfh_galpop"])

add("C17", "Centrals ignore infall history; satellites use it",
    "A galaxy marked as central gets the central quenched fraction, whatever values are stored in its host and infall fields; any other galaxy gets the satellite fraction for its own infall history. Apart from that fraction and the quenched flag no output distinguishes centrals from satellites.",
    ["inputs"], "all values of the infall fields incl. filler values; all galaxies",
    "tests use one filler convention; non-interference is a claim over all values of the ignored inputs",
    [DPK, SAT], [("selection on host id", DPK + ":mc_diffstar_u_params_singlegal_kernel"), ("satellite update", DPK + ":_diffstarpop_means_covs")],
    ["mc_diffstar_params_singlegal", "mc_diffstar_sfh_galpop"])

add("C18", "Both sequences are drawn from their own Gaussians, field by field",
    "The unbounded main-sequence parameters of the main-sequence realisation are one draw from the main-sequence Gaussian and its quenching parameters are the fixed unquenched values; the quenched realisation draws its main-sequence block and its quenching block from the quenched Gaussians. Every mean, spread and drawn component lands on the parameter it is named after.",
    ["inputs", "configurations"], "all population parameters, masses, peak times and keys",
    "sampled moments have large errors and transposed fields with similar means stay unseen",
    [DPK, PDF], [("draws and assembly", DPK + ":mc_diffstar_u_params_singlegal_kernel"), ("means", PDF + ":_get_mean_u_params_qseq"), ("covariances", PDF + ":_get_covariance_qseq_q_block")],
    ["mc_diffstar_u_params_singlegal", "mc_diffstar_params_singlegal"])

add("C19", "Covariances handed to the sampler are symmetric and positive definite",
    "For all allowed population parameters and every halo mass the covariance of each parameter block is symmetric, has the squared spreads of its own parameters on the diagonal in order, is positive definite, and every spread is strictly positive and bounded as declared.",
    ["inputs"], "all population parameters within bounds, all halo masses",
    "tests check eigenvalues at sampled parameters; non-positive spread appears only in corners (steep slopes, extreme masses)",
    [PDF, PUT], [("spread model", PUT + ":smoothly_clipped_line"), ("matrix assembly", PDF + ":_get_covariance_mseq_ms_block"), ("scaling", PUT + ":covariance_from_correlation")],
    ["_sfh_pdf_scalar_kernel", "covariance_from_correlation"])

add("C20", "Monte Carlo histories are the histories of the returned parameters",
    "The two histories returned by a Monte Carlo call are the deterministic histories of the two returned parameter sets for the caller's halo, times, present-day age and baryon fraction. The main-sequence history belongs to the main-sequence parameters and the quenched history to the quenched parameters, in both the single-galaxy and the population routine.",
    ["inputs"], "all inputs and keys",
    "tests check shapes and finiteness; a swapped label or a defaulted cosmology value is plausible-looking data",
    [MC, SFH], [("history evaluation", MC + ":mc_diffstar_sfh_singlegal"), ("population", MC + ":mc_diffstar_sfh_galpop")],
    ["mc_diffstar_sfh_singlegal", "mc_diffstar_sfh_galpop"])

add("C21", "The central-only sampler agrees with the general sampler for centrals",
    "For the same population parameters, halo and key, the central-only sampling routine returns exactly what the general routine returns for a galaxy marked central. Deterministic means, spreads and central fraction agree as well.",
    ["inputs"], "all inputs and keys",
    "the central-only routine is a hand-maintained copy and is compared by tests at most on a few keys",
    [DPK], [("general kernel", DPK + ":mc_diffstar_u_params_singlegal_kernel"), ("copy for centrals", DPK + ":mc_diffstar_u_params_singlegal_kernel_cen")],
    ["mc_diffstar_u_params_singlegal_kernel_cen"])

add("C22", "Shipped simulation calibrations are complete, in bounds and correctly filed",
    "Every shipped calibration supplies every population parameter by name, once, inside its declared interval, and carries its own unbounded counterpart. Each registry returns under a simulation's name the calibration belonging to that simulation, and the bounded and unbounded registries agree key by key.",
    ["configurations"], "all shipped calibrations, all names, all fields",
    "tests check finiteness; ten near-identical tables merged by position make a mis-filed or shifted entry invisible",
    [PRM + "params_diffstarpopfits_mgash.py", PRM + "params_diffstarfits_mgash.py", DMG], [("registries", PRM + "params_diffstarpopfits_mgash.py:DiffstarPop_Params_Diffstarpopfits_mgash"), ("per-simulation tables", PRM + "params_diffstarpopfits_mgash_tng.py")],
    ["DiffstarPop_Params_Diffstarfits_mgash", "DiffstarPop_Params_Diffstarpopfits_mgash"])

add("C23", "Predicted PDFs weight galaxies by quenched fraction and are normalised",
    "The predicted stellar mass and specific star formation distributions count each galaxy's main-sequence history with weight one minus its quenched fraction and its quenched history with weight equal to it, evaluate both at the target's own epoch with the target's own halos and keys, and normalise over the predicted bins. Specific rates are the rate over the mass of the same history, clipped from below only.",
    ["inputs"], "all population parameters, halos, epochs, bins",
    "tests check finiteness and gradients for one mock; a swapped or complemented weight yields a plausible normalised PDF",
    [LOSS], [("weights and concatenation", LOSS + ":mstar_kern_tobs"), ("two-dimensional histogram", LOSS + ":mstar_ssfr_kern_tobs"), ("time grid", LOSS + ":_mc_diffstar_sfh_galpop_vmap_kern")],
    ["mstar_kern_tobs", "mstar_ssfr_kern_tobs", "mstar_ssfr_sat_kern_tobs"])

add("C24", "Optimiser wrappers return the loss and its gradient in the caller's order",
    "Each optimiser-facing wrapper returns the value of its documented loss at the supplied flat vector together with that same loss's gradient, component by component in the order of the flat vector. Prediction wrappers return the prediction that loss compares with its target.",
    ["inputs"], "all parameter vectors and loss data; all wrappers",
    "tests check finiteness of gradients; the gradient of the wrong argument, loss or order is still finite",
    [LOSS], [("wrappers", LOSS + ":loss_mstar_kern_tobs_grad_wrapper"), ("combined", LOSS + ":loss_combined_3loss_wrapper")],
    ["loss_mstar_kern_tobs_grad_wrapper", "loss_mstar_ssfr_kern_tobs_grad_wrapper", "loss_combined_wrapper", "loss_combined_3loss_wrapper"])

add("C25", "Soft histogram weights are a partition: in [0,1], monotone and additive",
    "The smoothed cumulative kernels rise continuously and monotonically from exactly zero to exactly one over three widths on either side and are never outside [0,1]; the weight of a point in a bin is the difference across the bin's edges, so weights are non-negative and those of adjacent bins add. N-dimensional counts are the sum over points of the product over dimensions, times the point's own value when weighted.",
    ["inputs"], "all points, positive widths, ordered bins, any dimension",
    "tests compare with a dense histogram at a few points; monotonicity and continuity hold over a continuum and at the edges",
    [NDH, UT, PUT, QK], [("cumulative kernel", NDH + ":_tw_cuml_lax_kern"), ("bin weight", NDH + ":_tw_bin_weight_lax_kern"), ("counts", NDH + ":tw_ndhist_weighted")],
    ["tw_ndhist", "tw_ndhist_weighted", "tw_cuml_jax_kern", "tw_bin_jax_kern"])

add("C26", "The stellar-to-halo mass relation is a weighted mean of its own inputs",
    "In each halo mass bin the relation is the mean of the input stellar masses weighted by each halo's soft membership of that bin, using the same memberships in numerator and denominator. It therefore lies between the smallest and largest input stellar mass and reproduces a constant input exactly.",
    ["inputs"], "all samples, scatters and bins with non-zero membership",
    "tests check one mock; numerator and denominator may drift apart unnoticed",
    [SMHM, NDH], [("ratio of weighted counts", SMHM + ":compute_smhm")],
    ["compute_smhm"])

add("C27", "The fitter returns its best attempt and reports its outcome truthfully",
    "Over its restarts the fitter returns parameters, loss and status belonging to one and the same attempt, the one with the lowest valid loss; attempts with an invalid loss never win and never end the search. An attempt that finds no valid start counts as a failure with status -1 and a sentinel loss. It keeps restarting until the loss is within tolerance or the permitted number of attempts is used, and reports failure only when no attempt produced a valid result.",
    ["histories", "inputs"], "all sequences of attempt outcomes (valid, invalid, failed start), all tolerances and attempt limits",
    "the outcome sequence is random; tests see one or two sequences, nearly always success on the first attempt",
    [FU, FH], [("restart loop and selection", FU + ":minimizer_wrapper"), ("random restart", FU + ":return_random_pinit"), ("caller", FH + ":diffstar_fitter")],
    ["minimizer_wrapper", "diffstar_fitter"])

add("C28", "Fit targets, weights and starting point agree with the loss consuming them",
    "Every quantity the fitter prepares is consumed by the loss as that same quantity; the targets derive from the input history on the input times, all weights are positive, excluded times are suppressed (except those within a tenth of a dex of the final mass or the peak rate, which count double), and the time-averaged rate is ignored before one averaging time. The starting point lies inside the parameter bounds and is the documented mass-dependent guess.",
    ["inputs"], "all input histories, halos, cuts and cosmology inputs",
    "tests check shapes and one fit; two quantities swapped in the long positional record, or a guess that is computed and dropped, still fits",
    [FH], [("producer", FH + ":get_loss_data_default"), ("consumer", FH + ":loss_default_clipssfrh"), ("weights", FH + ":get_weights")],
    ["get_loss_data_default", "loss_default_clipssfrh", "get_weights"])

add("C29", "Saved fit tables keep values under the right column names",
    "Header, fitted rows, no-fit rows and collated columns agree in number and order, so each fitted parameter is stored under its own name with the loss and status after them, for every galaxy. A reader of the saved table finds every column it asks for and returns each under its own parameter.",
    ["inputs", "histories"], "all galaxies, fitted or not; all columns; writer and reader",
    "tests compare one line; agreement of writer variants and reader is a cross-function contract",
    [FH, LSM], [("header", FH + ":get_header"), ("row", FH + ":get_outline"), ("no-fit row", FH + ":get_outline_nofit"), ("collation", FH + ":write_collated_data"), ("reader", LSM + ":load_fit_sfh")],
    ["get_header", "get_outline", "get_outline_nofit", "write_collated_data", "load_fit_sfh"])

add("C30", "Loading a block of galaxies returns exactly that block of the full table",
    "Reading rows istart to iend returns, in order and for every column, the same rows a full read returns at those positions, and reading consecutive blocks tiles the full table. Columns not indexed by galaxy (the time grid) are returned whole.",
    ["inputs", "histories"], "all block boundaries, files and columns; all block loaders",
    "tests have no data files with blocks starting after zero; errors appear only for later blocks",
    [LUT, LSM, LGA, LEX], [("row slicing", LUT + ":load_flat_hdf5"), ("galacticus tables", LEX + ":extract_galacticus_sfh_tables"), ("galacticus block", LGA + ":load_galacticus_sfh_data_block")],
    ["load_flat_hdf5", "load_precomputed_diffmah_fits", "extract_galacticus_sfh_tables", "load_galacticus_sfh_data_block"])

add("C31", "Haloes without a fit are marked as such in every column, and only those",
    "A halo whose fit failed or used too few points has all its halo parameters replaced by the no-fit marker, and no other halo is touched; its mass is evaluated from harmless defaults, never from the marker. Present-day masses of fitted halos are the halo model's mass at the stated age from the stored parameters.",
    ["inputs"], "all tables, thresholds, ages",
    "no test data includes failed fits; a marker applied to four of five columns is silent",
    [LSM], [("marking", LSM + ":load_smdpl_diffmah_fits")],
    ["load_smdpl_diffmah_fits", "load_precomputed_diffmah_fits"])

add("C32", "Calls leave their inputs and the shipped defaults unchanged",
    "No public routine modifies an array, table or parameter object passed to it, nor the package's shipped default parameters, bounds and registries; no routine keeps state between calls. Repeating a deterministic call therefore returns the same result whatever was called in between.",
    ["histories", "inputs"], "all call sequences; all public functions",
    "tests call each routine in isolation; aliasing and hidden state need particular sequences",
    [UT, FH, FU, LSM, PAR, DEF], [("fresh copies before in-place writes", FH + ":get_loss_data_default"), ("weights on new arrays", FH + ":get_weights")],
    ["all public functions"])

add("C33", "Cosmology and tuning arguments reach every computation they govern",
    "The present-day age, baryon fraction and every optional setting a caller supplies are the values used in each computation below that call; none is dropped, replaced by a packaged default or exchanged for another. When omitted, the documented packaged default is used.",
    ["inputs", "configurations"], "all values of optional arguments at every public entry point",
    "tests mostly use defaults, for which a dropped argument is invisible",
    [SFH, MGAS, MC, LOSS, FH, LSM], [("fitter forwarding", FH + ":diffstar_fitter"), ("loss data", FH + ":get_loss_data_default"), ("diffmah loader", LSM + ":load_precomputed_diffmah_fits")],
    ["diffstar_fitter", "get_loss_data_default", "calc_mgas_singlegal", "mc_diffstar_sfh_galpop", "load_precomputed_diffmah_fits"])

add("C35", "The clipped mass-trend line stays within its limits and follows the line inside",
    "The mass trend used for means and spreads equals the straight line through its reference value well inside its limits, and is clipped smoothly so that it never leaves the limits by more than a negligible fraction, for every slope of either sign including zero. It is finite for every allowed parameter value.",
    ["inputs"], "all intercepts strictly inside the limits, all slopes in bounds including zero, all masses",
    "tests evaluate a few slopes; exactly flat and steep slopes at extreme masses are corner inputs",
    [PUT, PDF], [("clipping", PUT + ":smoothly_clipped_line"), ("use", PDF + ":line_model")],
    ["smoothly_clipped_line", "line_model"])

add("C36", "Time-step arrays agree and tile the time axis; averaged rates are non-negative",
    "The two time-step routines return the same steps for the same times, every step is positive for increasing times and the steps tile the covered span without gaps. The time-averaged star formation rate is the mass formed over the averaging window per unit time, never negative.",
    ["inputs"], "all increasing time grids with at least two entries; all windows",
    "tests compare the two on one or two grids; edge steps are special cases on every grid",
    [UT], [("vectorised steps", UT + ":_jax_get_dt_array"), ("loop steps", UT + ":_get_dt_array"), ("averaged rate", UT + ":compute_fstar")],
    ["_get_dt_array", "_jax_get_dt_array", "compute_fstar"])

add("C37", "The fit loss is non-negative, penalises misfit and responds to all parameters",
    "The fitting loss is a sum of non-negative terms, each squared term vanishing where model and target agree, and the averaged-rate, mass and rate targets each contribute with their own weights. It compares the model history for the candidate's own bounded parameters, halo, times and cosmology, and varies differentiably with every fitted parameter.",
    ["inputs"], "all parameters and targets",
    "tests check that a fit converges; a term with the wrong sign, weight or target is masked by the others",
    [FH], [("loss", FH + ":loss_default_clipssfrh"), ("gradient", FH + ":loss_grad_default_clipssfrh_np")],
    ["loss_default_clipssfrh", "diffstar_fitter"])

add("C38", "Population losses vanish at their target; central and satellite losses agree",
    "Each population loss is a positive multiple of the mean squared difference between its prediction and its own target, zero exactly when they coincide; combined losses are the plain sum of their named parts, each evaluated on its own data. The central and satellite specific-rate losses are the same function of their data.",
    ["inputs"], "all parameters and loss data",
    "tests check finiteness; hand-copied sibling kernels can drift apart",
    [LOSS], [("mean squared error", LOSS + ":_mse"), ("copies", LOSS + ":mstar_ssfr_sat_kern_tobs"), ("sum", LOSS + ":loss_combined_3loss_kern")],
    ["loss_mstar_kern_tobs", "loss_mstar_ssfr_kern_tobs", "loss_mstar_ssfr_sat_kern_tobs", "loss_combined_kern", "loss_combined_3loss_kern"])

add("C39", "Parameter selection and replacement act per field and leave the rest alone",
    "Filling a parameter set from a partial one takes every named field from the partial set and all others from the defaults, in the default order. Selecting between two parameter sets takes, for each galaxy and each field, the first set's value where the flag is true and the second's where it is false.",
    ["inputs"], "all subsets of fields, all galaxies and flags",
    "tests use one subset and one mask; field-order errors require particular subsets",
    [PAR], [("replacement", PAR + ":get_all_params_from_varied"), ("selection", PAR + ":mc_select_diffstar_params")],
    ["get_all_params_from_varied", "get_all_diffstarpop_u_params", "mc_select_diffstar_params"])

add("C40", "The gradient-descent fallback reports the best step it actually took",
    "The fallback optimiser returns the parameters and loss of one and the same recorded step, the one with the lowest finite loss, and stops before recording a step with non-finite parameters, loss or gradients. It reports successful termination exactly when all requested steps were recorded, and the fitter that falls back to it only does so when the main optimiser did not converge.",
    ["histories", "inputs"], "all loss functions, step counts and failure points",
    "tests do not reach the fallback; failure at a chosen step is a history",
    [FU], [("step loop", FU + ":_jax_adam_wrapper"), ("warm-up and status", FU + ":jax_adam_wrapper_v2"), ("fallback", FU + ":minimizer")],
    ["jax_adam_wrapper_v2", "minimizer"])

add("C41", "Loaded simulation histories are mutually consistent",
    "Every simulation loader returns stellar masses that are the cumulative mass of the returned star formation histories on the returned times, row-aligned with the returned identifiers. Galacticus rates are the mass formed per time step, disk plus bulge. Halo mass histories, where returned, never decrease with time and the returned peak mass is their final value.",
    ["inputs"], "all simulation loaders and files",
    "no data files exist offline, so tests cannot run them at all",
    [LSM, LGA], [("loaders", LSM + ":load_tng_data"), ("galacticus target data", LGA + ":load_galacticus_sfh_target_data")],
    ["load_bolshoi_data", "load_tng_data", "load_mdpl_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data", "load_galacticus_sfh_target_data"])

add("C42", "Every differentiable model output responds to every parameter it documents",
    "Each galaxy parameter influences the star formation history, and each population parameter influences the mean, spread or quenched fraction it is named after, through a differentiable path; no parameter is silently ignored and none reaches an output only through a branch condition. Parameters of one sequence do not influence the other sequence.",
    ["inputs"], "all parameters and outputs",
    "tests check that gradients are non-zero for some parameters at one point; a dropped parameter hides behind neighbours",
    [PDF, SAT, DPK, SFH], [("mean models", PDF + ":_get_mean_u_params_mseq"), ("fraction models", PDF + ":_frac_quench_cen"), ("satellite model", SAT + ":_qprob_hi_vs_sub_host_mass")],
    ["_diffstarpop_means_covs", "calc_sfh_singlegal"])

add("C43", "Utility numerics obey their defining identities",
    "Covariance and correlation conversions are mutual inverses scaled by the spreads; table interpolation returns the exact linear interpolant of its bracketing entries; the logistic and algebraic sigmoids approach their limits and take the midpoint at the transition. Argument broadcasting returns arrays of the common length carrying each input's values.",
    ["inputs"], "all inputs of the documented shapes",
    "tests check a few values",
    [UT, PUT], [("interpolation", UT + ":jax_np_interp"), ("covariance", PUT + ":covariance_from_correlation"), ("correlation", PUT + ":correlation_from_covariance"), ("algebraic sigmoid", UT + ":sigmoid_poly")],
    ["jax_np_interp", "covariance_from_correlation", "correlation_from_covariance", "sigmoid_poly", "get_1d_arrays"])

# --- properties outside the reach of this family -------------------------
add("N01", "Fits recover the star formation history they are given",
    "Fitting a history generated by the model returns a history within the stated tolerance of it.",
    ["inputs"], "all model histories", "depends on optimiser trajectories",
    [FH, FU], [("fitter", FH + ":diffstar_fitter")], ["diffstar_fitter"])
add("N02", "Monte Carlo populations have the statistics the model states",
    "Sample means, covariances and quenched fractions of large Monte Carlo populations converge to the model's.",
    ["inputs"], "all keys and population sizes", "statement about pseudo-random sequences",
    [MC], [("sampler", MC + ":mc_diffstar_params_galpop")], ["mc_diffstar_params_galpop"])
add("N03", "Results are accurate in single precision",
    "Outputs evaluated in 32-bit arithmetic agree with the real-valued model to a small relative error, and gradients are finite, for all allowed inputs.",
    ["inputs"], "all inputs in bounds", "rounding and saturation vary over a continuum",
    [SFH, MC], [("kernels", HK + ":_sfh_singlegal_scalar")], ["calc_sfh_singlegal"])
add("N04", "Shipped calibrations reproduce the simulations they are named after",
    "Populations generated from a shipped calibration match the named simulation's distributions.",
    ["configurations"], "all calibrations", "needs the simulations",
    [PRM + "params_diffstarpopfits_mgash.py"], [("tables", PRM + "params_diffstarpopfits_mgash.py")], ["DiffstarPop_Params_Diffstarfits_mgash", "DiffstarPop_Params_Diffstarpopfits_mgash"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["title"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
