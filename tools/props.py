ENG = ("Every path of the harness over the real functions is executed symbolically and z3 (with certified bounds for the "
       "transcendental atoms) shows the negated assertion unsatisfiable; inputs are mathematical reals (float rounding is outside "
       "the claim), sizes are the bounded concrete ones listed in the evidence file. ")
ANALYTIC = ["bilby/core/prior/analytical.py", "bilby/core/prior/base.py"]

PROPS = [
 dict(id="C01", title="Prior rescale inverts the cdf and stays inside the support",
  statement="For every analytical one-dimensional prior and every choice of its hyper-parameters, rescale maps the unit interval monotonically into the prior's support and cdf(rescale(u)) = u for every u in (0, 1); the end points of a bounded prior are hit at 0 and 1.",
  over=["inputs", "configurations"], text="all hyper-parameters in the stated real ranges, all unit-cube coordinates",
  why="The tests evaluate a handful of fixed hyper-parameters on random draws; a wrong branch for one exponent or one corner of the hyper-parameter space is never reached.",
  files=ANALYTIC, mech=[("inverse-transform sampling", "Prior.rescale / Prior.cdf overrides in bilby/core/prior/analytical.py")],
  note=ENG + "Power-law exponents come from a stated finite list. Distribution functions of scipy (erf, erfinv, incomplete gamma/beta and inverses) are axiomatised."),
 dict(id="C02", title="Prior densities are non-negative, vanish off the support, ln_prob is their log",
  statement="For every analytical prior and hyper-parameters, prob(x) is non-negative, positive inside the support and exactly zero outside of it, and ln_prob(x) equals log(prob(x)), in particular -inf outside the support.",
  over=["inputs", "configurations"], text="all hyper-parameters in the stated ranges, all evaluation points inside and outside the support",
  why="prob and ln_prob are separate implementations; tests compare them at a few points of one parametrisation each.",
  files=ANALYTIC, mech=[("prob / ln_prob pairs", "bilby/core/prior/analytical.py"), ("is_in_prior_range", "Prior.is_in_prior_range")],
  note=ENG),
 dict(id="C03", title="Prior density is the derivative of its cdf and integrates to one",
  statement="For every analytical prior, prob is the derivative of cdf at every interior point, and the cdf is 0 below the minimum and 1 above the maximum, so that the density is normalised for every choice of hyper-parameters.",
  over=["inputs", "configurations"], text="all hyper-parameters in the stated ranges, every interior point",
  why="Normalisation is tested by numerically integrating one parametrisation per prior to a loose tolerance.",
  files=ANALYTIC, mech=[("prob", "bilby/core/prior/analytical.py"), ("cdf", "bilby/core/prior/analytical.py")],
  note=ENG + "The derivative of the code's cdf is taken symbolically (five-point stencil in the replay)."),
 dict(id="C04", title="Evaluating a prior on an array equals evaluating it element by element",
  statement="prob, ln_prob, cdf and rescale of an analytical prior applied to an array return, elementwise, the scalar results, keep the shape, and leave the argument unchanged.",
  over=["inputs"], text="arrays of two independent symbolic entries, all hyper-parameters in the stated ranges",
  why="Samplers call the scalar form, reweighting the array form; mixed arrays (some entries in, some out of support) are not sampled systematically.",
  files=ANALYTIC, mech=[("vectorised branches (np.where, masks, np.piecewise)", "bilby/core/prior/analytical.py")],
  note=ENG),
 dict(id="C05", title="A PriorDict is the product of its priors, restricted by its constraints",
  statement="For any dictionary of priors, prob (ln_prob) of a sample is the product (sum of logs) of the single densities, zero (-inf) whenever a Constraint evaluated on the converted sample is violated, corrected by the constraint normalisation when asked; rescale and cdf act key by key; fixed values become DeltaFunctions.",
  over=["inputs", "configurations"], text="all hyper-parameters and samples of dictionaries of three to four priors, constrained or not; scalars and arrays of two",
  why="Samples at a constraint boundary or with only one of several entries violating it are not generated by the tests.",
  files=["bilby/core/prior/dict.py"], mech=[("product over keys, constraint product", "PriorDict.prob/ln_prob/evaluate_constraints/check_prob"), ("normalisation", "PriorDict.normalize_constraint_factor")], note=ENG),
 dict(id="C06", title="ConditionalPriorDict follows the chain rule for every key order and history",
  statement="In a ConditionalPriorDict, rescale/sample/prob evaluate each conditional prior with the values of the parameters it depends on, so that the density is the product of conditional densities and rescale inverts it, independently of insertion order, key order of the call, condition-function argument order, and of earlier replacements, deletions or evaluations.",
  over=["inputs", "histories", "configurations"], text="every insertion and call order of three parameters, histories of two modifications with evaluations in between, all values in the stated ranges",
  why="Stale conditioned state after an edit or an unlucky key order needs a specific history; tests use one order.",
  files=["bilby/core/prior/dict.py", "bilby/core/prior/conditional.py"], mech=[("dependency resolution", "ConditionalPriorDict._resolve_conditions"), ("re-conditioning", "conditional_prior_factory: update_conditions / reference_params")], note=ENG),
 dict(id="C07", title="Prior sampling returns rescaled uniforms that satisfy every constraint",
  statement="Samples drawn from a prior or prior dictionary are the rescaled uniform draws of the generator, have the requested size, lie in the support, and with Constraint priors every returned sample satisfies every constraint and accepted draws are kept in order, none invented, for any acceptance pattern.",
  over=["inputs", "schedules"], text="all values of the uniform draws (symbolic generator), sizes None, 1, 2, 3, (1,2), up to three rejection batches",
  why="The rejection loop's behaviour depends on the pattern of accepted and rejected draws across batches, which tests cannot steer.",
  files=["bilby/core/prior/dict.py", "bilby/core/prior/base.py", "bilby/core/prior/analytical.py"], mech=[("rejection loop", "PriorDict.sample_subset_constrained")], note=ENG),
 dict(id="C08", title="Priors survive being written to files and read back",
  statement="repr, .prior files and JSON of every prior, conditional, joint, slab-and-spike, interpolated prior and of each dictionary class give back an object of the same class with the same arguments, limits, labels and density; copies are equal and independent.",
  over=["inputs", "configurations"], text="all hyper-parameters (numbers pass through as symbols), names/labels/units/boundaries from finite lists",
  why="Tests round-trip default instances; attributes that differ from the defaults (bounds, boundary, reference parameters) get lost unnoticed.",
  files=["bilby/core/prior/base.py", "bilby/core/prior/dict.py", "bilby/core/prior/joint.py", "bilby/core/utils/io.py"], mech=[("repr parsing", "Prior._from_repr/_split_repr/_parse_argument_string"), ("instantiation dict", "get_instantiation_dict"), ("JSON", "PriorDict._get_json_dict, BilbyJsonEncoder, decode_bilby_json")], note=ENG + "Numbers are carried through text as tokens; decimal formatting is outside."),
 dict(id="C10", title="The multivariate Gaussian prior: density, rescaling, bounds and mixture weights agree",
  statement="A (mixture of) multivariate Gaussian prior has the closed-form density of its means, sigmas, correlations and weights, -inf outside any parameter's bounds for every sample of a batch; rescaling maps unit-cube points through the correct affine map of the chosen mode; the joint behaves consistently inside PriorDict for scalars and arrays.",
  over=["inputs"], text="all means, standard deviations, evaluation points and unit-cube points; correlation from a finite list",
  why="Batches mixing in- and out-of-bounds points, and modes with unequal weights, are not covered by tests.",
  files=["bilby/core/prior/joint.py", "bilby/core/prior/dict.py"], mech=[("_ln_prob", "MultivariateGaussianDist._ln_prob"), ("_check_samp", "BaseJointPriorDist._check_samp"), ("_rescale", "MultivariateGaussianDist._rescale")], note=ENG),
 dict(id="C11", title="A slab-and-spike prior is the stated mixture of slab and atom",
  statement="For any slab, spike location and height, the density off the spike is (1-height) times the slab's, the cdf jumps by height at the spike, rescale maps a sub-interval of length height to the spike and the rest onto the slab monotonically, for scalars and arrays.",
  over=["inputs", "configurations"], text="six slab families, all spike heights and locations including both edges of the support",
  why="Off-by-one-branch errors at the edges of the spike interval show only for specific unit values.",
  files=["bilby/core/prior/slabspike.py"], mech=[("rescale with the inverse cdf below and above the spike", "SlabSpikePrior.rescale/_contracted_rescale")], note=ENG),
 dict(id="C12", title="Interpolated and Dirichlet priors are normalised and self-consistent",
  statement="An Interped prior reproduces its normalised table at the nodes, its cdf is the integral at the nodes, rescale inverts cdf, changing the range or table rescales consistently; Dirichlet elements are non-negative and sum to one with the conditional chain density.",
  over=["inputs", "histories"], text="all tables of three or four nodes, all subranges, all unit-cube points; 2 to 4 Dirichlet elements",
  why="Re-tabulating after minimum/maximum/yy changes is a state machine the tests do not walk.",
  files=["bilby/core/prior/interpolated.py", "bilby/core/prior/conditional.py"], mech=[("table update", "Interped._initialize_attributes/_update_instance"), ("stick breaking", "DirichletElement.dirichlet_condition")], note=ENG),
 dict(id="C13", title="Core likelihoods are their stated closed forms and joint likelihoods add up",
  statement="For all data, parameters and noise levels, the Gaussian, Poisson, exponential, Student-t, multinomial and covariant Gaussian likelihoods equal their closed-form log densities (noise parameters fixed or sampled), respond to replaced data, and reject invalid data; a joint likelihood is the sum of its parts with shared parameters.",
  over=["inputs", "configurations"], text="three symbolic data points, all parameter values in the stated ranges, count data from finite lists, one or two components",
  why="Tests compare single evaluations, often against the same expression; branches on sampled against fixed noise and on replaced data are untested combinations.",
  files=["bilby/core/likelihood.py"], mech=[("log_likelihood", "GaussianLikelihood, PoissonLikelihood, ExponentialLikelihood, StudentTLikelihood, Multinomial, AnalyticalMultidimensionalCovariantGaussian"), ("sum", "JointLikelihood")], note=ENG),
 dict(id="C15", title="Hyper-parameter likelihood is the product of importance-weighted averages",
  statement="The hyper-parameter likelihood is the sum over events of ln(evidence) plus the log of the sample average of population density over sampling prior, minus the same noise reference, for every way of giving the sampling prior, unequal numbers of samples (down-sampled jointly per event), and a population model caches nothing that changes its value.",
  over=["inputs", "configurations", "histories"], text="two events of two or three samples, all samples, prior columns and hyper-parameters, two successive evaluations of a model",
  why="Tests use one posterior repeated; mixing up events, priors and columns is invisible then.",
  files=["bilby/hyper/likelihood.py", "bilby/hyper/model.py"], mech=[("resample_posteriors", "HyperparameterLikelihood.resample_posteriors"), ("cache", "Model.prob")], note=ENG),
 dict(id="C21", title="Compact-binary mass, frame and spin conversions agree with each other",
  statement="Any sufficient pair of mass parameters (with redundant others, detector or source frame, any distance parameter) converts to the same component masses and derived masses, conversion functions are mutually inverse, spins and angles convert to components consistently, added keys are reported, given values are kept, and insufficient input is left alone.",
  over=["inputs", "configurations"], text="all masses 0.1 to 100 with mass_2 <= mass_1, all redshifts and spins in the stated ranges, every pair of mass parameters",
  why="Each conversion is tested at one point; the pairwise round trips over the whole mass plane, and branches of the cubic solution, are not.",
  files=["bilby/gw/conversion.py"], mech=[("generate_component_masses", "bilby/gw/conversion.py"), ("generate_source_frame_parameters", "bilby/gw/conversion.py"), ("convert_to_lal_binary_black_hole_parameters", "bilby/gw/conversion.py"), ("spin functions", "generate_spin_parameters, generate_component_spins")],
  note=ENG + "The cosmology and LALSimulation's spin transformation are replaced by stand-ins."),
 dict(id="C40", title="Reweighting a result is exact importance weighting, resumable at any point",
  statement="Weights are exp(new likelihood + new prior - old likelihood - old prior) per sample for every combination of given likelihoods and priors; kept samples are those whose weight exceeds a uniform fraction of the largest, with their row and updated likelihood and prior, the evidence is updated by the mean weight, and the input result is left unchanged. An interrupted run resumed from its file gives the same weights wherever it was interrupted.",
  over=["inputs", "crash_points", "configurations"], text="all sample values, likelihoods, priors and uniform draws for two or three samples; an interruption at every prior evaluation, checkpoint intervals 1 and 2",
  why="Tests check the weights of two reweightings; interruption points and the input being modified are not observed.",
  files=["bilby/core/result.py"], mech=[("weights and resume file", "get_weights_for_reweighting"), ("selection and evidence", "reweight, rejection_sample")], note=ENG + "The process pool is replaced by a serial map."),
 dict(id="C41", title="Combining results weights runs by evidence and refuses unrelated runs",
  statement="Combining nested-sampling results keeps each sample with probability proportional to its run's evidence, rows intact and in order, and averages the evidence; MCMC results are concatenated; runs with different samplers, parameters, priors or data are refused, warned about or accepted as asked; inputs are unchanged.",
  over=["inputs", "configurations"], text="two or three results of one or two samples, all evidences, samples and uniform draws; every position of the inconsistent run",
  why="Tests combine identical runs; selection against the evidence ratio and every kind of inconsistency are not explored.",
  files=["bilby/core/result.py"], mech=[("combine", "ResultList.combine/_combine_nested_sampled_runs/_combine_mcmc_sampled_runs"), ("consistency", "ResultList.check_consistent_*")], note=ENG),
 dict(id="C42", title="A saved result reads back the same from JSON, gzip and HDF5",
  statement="A result with any contents, written to JSON, compressed JSON or HDF5 and read back by file name or label, has the same samples, evidences, priors, labels and meta data and can be written again; saving does not change the result; an existing file is kept under another name unless it is to be overwritten; lists of files keep their order.",
  over=["inputs", "histories", "configurations"], text="all numerical contents (as tokens), texts, None, nested dictionaries, arrays, complex numbers, functions; three formats",
  why="Tests save one default-like result; None entries, functions among the arguments and second saves are not covered.",
  files=["bilby/core/result.py", "bilby/core/utils/io.py"], mech=[("save_to_file", "Result.save_to_file"), ("encoders", "BilbyJsonEncoder, encode_for_hdf5, decode_from_hdf5")], note=ENG + "Symbolic runs use a stand-in for h5py; replays use h5py."),
 dict(id="C43", title="Result summaries are the stated functions of the posterior samples",
  statement="Credible levels, weights under new priors, quantile summaries, credible intervals, covariance, effective sample sizes and evidences in base ten equal their definitions for every posterior (and order of its rows); building the posterior keeps samples, likelihoods and priors of a row together and adds fixed values and conversions.",
  over=["inputs", "histories"], text="all values of two or three posterior samples, weights, quantiles and injected values",
  why="Tests compare summaries of one random posterior in its default order.",
  files=["bilby/core/result.py", "bilby/core/utils/samples.py"], mech=[("samples_to_posterior", "Result.samples_to_posterior"), ("credible levels", "Result.get_injection_credible_level"), ("weights", "Result.get_weights_by_new_prior"), ("SamplesSummary", "bilby/core/utils/samples.py")], note=ENG),
 dict(id="C22", title="Tidal parameters and equations of state convert consistently",
  statement="Component tidal deformabilities and their combinations (lambda-tilde, delta-lambda-tilde, symmetric, antisymmetric, binary-Love relations) equal their published definitions and are mutually inverse; equations of state are evaluated sample by sample in whatever mix of scalars and arrays they are given, unviable binaries are flagged with vanishing deformability; generating all parameters of a sample keeps given values, adds consistent ones and records the waveform settings.",
  over=["inputs", "configurations"], text="all masses 1 to 3, deformabilities 0 to 5000, equation-of-state parameters; every mix of scalar and array parameters",
  why="Tests convert a handful of samples; mixtures of pinned and sampled equation-of-state parameters and scalar inputs to the binary-Love relations are not covered.",
  files=["bilby/gw/conversion.py"], mech=[("tidal functions", "lambda_*_to_*"), ("equation-of-state branches", "convert_to_lal_binary_neutron_star_parameters"), ("viability", "neutron_star_family_physical_check"), ("generation", "_generate_all_cbc_parameters")], note=ENG + "LALSimulation's equations of state are replaced by stand-ins."),
 dict(id="C16", title="Time and frequency series and their transforms agree with each other",
  statement="Time and frequency arrays have the spacing and length of the data for every duration and sampling frequency (odd numbers of samples included), illegal combinations are refused, durations and sampling frequencies are recovered from the arrays, the Fourier transforms are inverse and correctly normalised, and a coupled pair of series is consistent after any sequence of changes and reads.",
  over=["inputs", "histories"], text="2 to 9 samples, all sampling frequencies, start times and data; histories of two changes with reads",
  why="Tests use a few even lengths; stale arrays after a setter and odd lengths are not exercised.",
  files=["bilby/core/utils/series.py", "bilby/core/series.py"], mech=[("arrays", "create_time_series, create_frequency_series"), ("transforms", "nfft, infft"), ("coupled state", "CoupledTimeAndFrequencySeries")], note=ENG),
 dict(id="C24", title="Detector geometry and antenna response always match the detector's current site",
  statement="After any sequence of changes to a detector's site, elevation, arm azimuths and tilts and reads of derived quantities, the vertex, arm vectors, detector tensor, antenna response and time delay are those of the current values; vertices lie on the reference ellipsoid; the three detectors of a triangle are rotated copies located at its corners.",
  over=["inputs", "histories"], text="all sites, arms and source directions in range; histories of two changes with any reads between",
  why="A cache that misses one of eight attributes shows only for one particular order of reads and changes.",
  files=["bilby/gw/detector/geometry.py", "bilby/gw/detector/interferometer.py", "bilby/gw/detector/networks.py", "bilby/gw/utils.py"], mech=[("caches", "InterferometerGeometry"), ("vertex", "get_vertex_position_geocentric"), ("response", "Interferometer.antenna_response"), ("triangle", "TriangularInterferometer.__init__")], note=ENG + "The compiled bilby_cython geometry is replaced by equal formulas while executing symbolically and used itself in the concrete re-runs."),
 dict(id="C25", title="Strain data are those set last, in both domains, masked and normalised consistently",
  statement="However strain data are set, replaced, injected into or band-limited, and whichever domain is read first, the frequency-domain strain is the masked (windowed) transform of the current data, the time-domain strain is its counterpart, the window normalisation belongs to the current data, the mask is the current band without notches, and the analysis segment alone is removed from data used to estimate noise.",
  over=["inputs", "configurations", "histories"], text="4 to 6 samples of arbitrary data, all sampling frequencies, bands, notches and roll-offs; every pair of seven ways of setting and nine ways of changing data",
  why="The object caches five derived quantities; tests never set data twice or read the window normalisation first.",
  files=["bilby/gw/detector/strain_data.py"], mech=[("caches", "InterferometerStrainData"), ("mask", "frequency_mask"), ("window", "time_domain_window"), ("segment removal", "create_power_spectral_density")], note=ENG),
 dict(id="C26", title="Signals are projected, injected and compared with data consistently, inside the band only",
  statement="The detector response is the sum over modes of antenna response times amplitude, delayed from the geocentre and calibrated, zero outside the band; an injection adds exactly this to the data and records the resulting ratios; inner products, optimal and matched-filter signal-to-noise ratios, overlaps and whitening use the current band, noise power (with window normalisation) and duration, satisfy conjugate symmetry, additivity and Cauchy-Schwarz, and are blind to everything outside the band; detectors of a network share times and the injected signal.",
  over=["inputs", "configurations"], text="3 to 5 frequency bins of arbitrary data and signals, all noise spectra, bands, window factors, sky locations, start times",
  why="Tests pin one fixed array; a mask, window or conjugation slip between two of the routines stays invisible.",
  files=["bilby/gw/detector/interferometer.py", "bilby/gw/detector/networks.py", "bilby/gw/utils.py"], mech=[("projection", "Interferometer.get_detector_response"), ("injection", "inject_signal_from_waveform_polarizations"), ("inner products", "noise_weighted_inner_product, matched_filter_snr, overlap"), ("consistency", "InterferometerList._check_interferometers")], note=ENG),
 dict(id="C27", title="Noise spectra: amplitude, power and lookups never disagree",
  statement="Whichever way a noise spectrum is set or replaced (arrays, files, constructors), amplitude and power views, the interpolation (infinite outside the known band) and cached lookups at any sequence of frequency arrays all describe the spectrum set last; mismatched or missing input is refused without change; noise realisations are white noise coloured by it and vanish where it is unknown.",
  over=["inputs", "histories"], text="spectra of three points with arbitrary frequencies and values, every pair of eight ways of setting, lookups before and after",
  why="Cache and interpolant are refreshed in different places; tests set a spectrum once.",
  files=["bilby/gw/detector/psd.py"], mech=[("setters", "PowerSpectralDensity.psd_array, asd_array, psd_file, asd_file"), ("cache", "_update_cache, get_power_spectral_density_array"), ("noise", "get_noise_realisation")], note=ENG),
 dict(id="C28", title="Marginalised GW likelihoods are prior averages of the GW likelihood, and reconstruction samples from the matching conditionals",
  statement="The GW likelihood ratio is sum over detectors of Re<d,h>-<h,h>/2 (and equals the residual-power form minus the noise evidence); sky frame and time reference translate parameters without changing the signal meant; with any combination of time (with jitter), phase, distance and calibration marginalisation it is the average of that likelihood over the prior of the marginalised parameters (on their grids); a stored distance table is used only if it matches; reconstructing draws each marginalised parameter from the density proportional to likelihood times prior given the parameters drawn before.",
  over=["inputs", "configurations"], text="3 to 5 frequency bins of arbitrary data, noise power, calibration draws, jitter and distance priors; all supported combinations of marginalisation; one or two detectors",
  why="Tests compare marginalised and numerically averaged likelihoods at one loose tolerance and one injection, and skip many combinations; an off-by-one in times or a missing normalisation survives.",
  files=["bilby/gw/likelihood/base.py", "bilby/gw/likelihood/basic.py", "bilby/gw/utils.py"], mech=[("likelihood", "GravitationalWaveTransient.log_likelihood_ratio, calculate_snrs"), ("marginalisation", "time_/phase_/distance_/calibration_marginalized_likelihood, _create_lookup_table"), ("reconstruction", "generate_*_sample_from_marginalized_likelihood")], note=ENG),
 dict(id="C32", title="Relative binning is the exact likelihood for waveform ratios linear in each bin",
  statement="The frequency bins cover every in-band frequency exactly once with edges on the data's grid, also when detectors have different bands or the fiducial waveform ends inside them; inner products, the reconstructed full waveform and the (marginalised) likelihood are those of the fiducial waveform times the ratio interpolated linearly within each bin, so that the likelihood is exact at the fiducial parameters and for any constant ratio.",
  over=["inputs", "configurations"], text="nine frequency bins of arbitrary data, arbitrary complex ratios at the edges of 2 to 6 bins, five arrangements of bands",
  why="Tests compare with the full likelihood near one injection with loose tolerances; errors at the last bin or for unequal bands go unseen.",
  files=["bilby/gw/likelihood/relative.py"], mech=[("bins", "setup_bins"), ("summary data", "compute_summary_data, set_fiducial_waveforms"), ("products", "calculate_snrs, compute_waveform_ratio_per_interferometer, _compute_full_waveform")], note=ENG),
 dict(id="C29", title="Calibration factors, their priors and tables of draws are consistent",
  statement="The spline calibration factor is (1+A)(2+ip)/(2-ip) with A and p the not-a-knot cubic splines, in log frequency, of the detector's own node values, at every frequency and after every change of the nodes; a precomputed curve is used for its own index and frequencies; the calibration priors have the nodes, medians and widths of the envelope or constants given; and a table of draws, whether made from the prior, stored in a file, read back or taken from stored curves, pairs the rows asked for with their own parameters.",
  over=["inputs", "configurations", "histories"], text="4 to 6 spline nodes of arbitrary value, any frequency from a factor of three below to a factor of three above the nodes, tables of 2 to 4 arbitrary curves with any offset and length",
  why="Tests look at one factor with all nodes zero and one round trip from the first row; spline coefficients and offsets into the table are never checked.",
  files=["bilby/gw/detector/calibration.py", "bilby/gw/prior.py"], mech=[("spline", "CubicSpline"), ("stored curves", "Precomputed, build_calibration_lookup, read_calibration_file, write_calibration_file"), ("priors", "CalibrationPriorDict")], note=ENG),
 dict(id="C30", title="Waveforms are those of the source model for the present parameters, times and frequencies",
  statement="Whatever was computed before, a waveform generator returns its source model evaluated at the present parameters (converted, restricted to the model's own, with the waveform arguments added) and the present times or frequencies, Fourier transformed if the model lives in the other domain; and the compact-binary source models return what LALSimulation gives for the same system in its units, on the frequencies asked for, zero outside the band, shifted to the reference time if made in the time domain, and None exactly for caught domain errors.",
  over=["inputs", "configurations", "histories"], text="three calls with any change of parameters, sampling, model or arguments between them; arbitrary waveforms of 3 to 8 frequencies",
  why="Caching makes results depend on the history of calls; tests try a few two-call histories and compare few waveforms with fixed numbers.",
  files=["bilby/gw/waveform_generator.py", "bilby/gw/source.py"], mech=[("cache and transform", "WaveformGenerator._calculate_strain, _strain_from_transformed_model, parameters"), ("source models", "lal_binary_black_hole, lal_binary_neutron_star, *_roq, *_relative_binning, *_frequency_sequence")], note=ENG),
 dict(id="C23", title="Compact-binary priors are the distributions they are named after, and their dictionaries report what they hold",
 statement="The chirp-mass and mass-ratio priors that are flat in component masses have, together, a density times Jacobian that is the same at every pair of component masses; each density vanishes off its support and is the derivative of a cdf that runs from 0 to 1, also outside the support, and rescaling inverts the cdf (folded for equal masses). The conditional spin priors (in-plane component, magnitude given the aligned component) have density, cdf, limits and rescaling that agree for either sign of the aligned spin, also inside dictionaries in any key order; the projected-spin prior covers exactly the attainable products of magnitude and cosine. The cosmological priors tabulate the stated redshift distribution times dz/d(parameter), with corresponding limits in every parametrisation, also after a limit moved. Resampling to flat-in-component-mass weights samples by the new over the old density, refuses unsuitable priors and leaves the given result unchanged. Derived mass limits, redundancy tests, parameter-set flags and constraints on derived masses follow the dictionary's own entries.",
 over=["inputs", "configurations"], text="all values inside and outside the supports, all limits in the stated ranges, three-node tables, two or three samples, all subsets of the listed keys as sampled, fixed or constrained",
 why="The tests compare histograms of a few thousand draws for one set of limits (a loose KS test) and never evaluate outside the support, with tilts of one sign, or after moving limits.",
 files=["bilby/gw/prior.py", "bilby/core/prior/conditional.py", "bilby/core/prior/dict.py", "bilby/gw/conversion.py"],
 mech=[("UniformInComponentsMassRatio", "bilby/gw/prior.py"), ("ConditionalChiInPlane", "bilby/gw/prior.py"), ("AlignedSpin", "bilby/gw/prior.py"), ("Cosmological._set_limit", "bilby/gw/prior.py"), ("convert_to_flat_in_component_mass_prior", "bilby/gw/prior.py"), ("CBCPriorDict", "bilby/gw/prior.py")], note=ENG),
 dict(id="C31", title="MCMC proposals, steps, swaps and evidences keep to the tempered posteriors",
  statement="Every proposal of the MCMC sampler reports as its factor the ratio of the density of the reverse move to that of the move, boundaries included, so that a step accepted with probability min(1, factor times the ratio of tempered posteriors) satisfies detailed balance; refused or invalid proposals repeat the present sample; neighbouring temperatures exchange their samples with the right probability and continue from them; hot samples are weighted by the rest of the likelihood without changing the chain; and the evidences are the stepping-stone and thermodynamic sums of the recorded likelihoods.",
  over=["inputs", "schedules", "configurations"], text="all points, jumps and draws of each proposal in one and two parameters with each boundary condition; two internal steps; three temperatures; ensembles of three",
  why="A proposal that breaks detailed balance still moves, is accepted and gives plausible chains; tests only run proposals and look at the type of what they return.",
  files=["bilby/bilby_mcmc/proposals.py", "bilby/bilby_mcmc/sampler.py", "bilby/bilby_mcmc/chain.py"], mech=[("proposals", "FixedGaussian, AdaptiveGaussian, FixedJump, DifferentialEvolution, Uniform, Prior, KDE, GMM, reversal, CorrelatedPolarisationPhaseJump and stretch proposals"), ("steps and swaps", "BilbyMCMCSampler.step, swap_tempered_chains, ensemble_step, rejection_sample_zero_temperature_samples"), ("evidence", "_calculate_stepping_stone, thermodynamic_integration_evidence")], note=ENG),
 dict(id="C20", title="A grid holds likelihood and prior at its points, and its evidence and marginals are trapezium integrals",
  statement="A Grid evaluates the likelihood once at each of its points, repeated points included, and keeps the value and the prior density there; marginalising over any parameters, named or left out, in any order, integrates by the trapezium rule over the actual spacings; the evidence is the integral of the posterior, and marginal distributions are relative to their maximum.",
  over=["inputs", "configurations"], text="positive likelihoods at every point of grids of up to three parameters, unequal spacings, any subset of parameters",
  why="Axes and spacings can be confused without any visible error on the symmetric, equally spaced grids that tests use.",
  files=["bilby/core/grid.py", "bilby/core/utils/calculus.py"], mech=[("grid", "Grid._evaluate, marginalize, _marginalize_single, ln_evidence"), ("integration", "logtrapzexp")], note=ENG),
 dict(id="C33", title="Samplers see the priors and likelihood they were given, and results report what they returned",
  statement="A sampler takes arrays in the order of its searched parameters, keeps fixed parameters at their values, applies constraints, and evaluates exactly the likelihood (or its ratio) and prior it was given; initial points carry their own coordinates and likelihoods and are finite; and run_sampler, with any kind of sampler given, reports evidence, noise evidence and Bayes factor consistently for either convention, samples with their fixed and converted parameters, injection parameters converted once, and times in seconds.",
  over=["inputs", "configurations"], text="any order of parameters, likelihood convention, samples, evidences, conversions and recorded times",
  why="Orders of parameters and conventions only show when they differ from the ones tests use; the bookkeeping around samplers is checked only through whole runs.",
  files=["bilby/core/sampler/__init__.py", "bilby/core/sampler/base_sampler.py"], mech=[("interface", "Sampler.prior_transform, log_prior, log_likelihood, _initialise_parameters, get_initial_points_from_prior; NestedSampler"), ("bookkeeping", "run_sampler, Result.samples_to_posterior")], note=ENG),
]

NOT_APPLICABLE = []
NOTES = "All checks run the symbolic executor in symx/ (see DESIGN.md) on the sources in /repo at the time of the run; nothing is cached between runs."
