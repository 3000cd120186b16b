"""Table of the properties (single source of properties.jsonl and MANIFEST.json)."""
TECH = ("symbolic execution of the real Python code; every branch and assertion decided by z3 "
        "over all inputs in the bounds; counterexamples replayed on the unpatched code")
NOTES = ("Every check imports naima from /repo's working tree, executes it on symbolic values "
         "(symx/), asks z3 about each assertion on each feasible path, and replays candidates "
         "concretely. Known findings: KNOWN_FINDINGS.txt. Metadata is generated by tools/meta.py.")
RAD, MOD, UT, CORE = ("src/naima/radiative.py", "src/naima/models.py", "src/naima/utils.py",
                      "src/naima/core.py")
AN, PL, SH, EX = ("src/naima/analysis.py", "src/naima/plot.py", "src/naima/sherpa_models.py",
                  "src/naima/extern/")
ARR = "Bounded: 1-3 energies, 10-20 point particle grids; trapezoid rule replaced by its contract (C11)."
NOT_APPLICABLE = {
    "C90": "convergence of the affine-invariant sampler to the posterior is a statistical limit over "
           "unbounded random histories inside emcee; no bounded symbolic encoding decides it",
    "C91": "the accuracy of the spline interpolation between the nodes of the packaged tables is decided "
           "by scipy's compiled FITPACK code and 10^5 stored numbers; it cannot be encoded from /repo's "
           "source (that the right table is used, at the right energies, is C37)",
}
P = {
"C01": dict(
    title="Particle-distribution models follow their documented formulas",
    statement="Each particle-distribution model (power law, exponential cutoff, broken power law, "
        "exponential-cutoff broken power law, log parabola) returns, at every energy, the value of the "
        "functional form given in its documentation for its current parameter values, in the units of "
        "its amplitude. The value does not depend on the unit in which energies or parameters are "
        "given, broken power laws are continuous at the break, and reassigning a parameter takes effect "
        "in later evaluations.",
    quant="all energies, amplitudes, reference/break/cutoff energies, indices and their units",
    why="tests compare a few spectra at default parameters with stored numbers; the formulas have to "
        "hold for every parameter combination including negative indices, breaks on either side of the "
        "energy and mixed units",
    files=[MOD], mech=[("_calc of every model class", "src/naima/models.py"),
                       ("validate_scalar/validate_array conversions", "src/naima/extern/validator.py")],
    bounds="Bounded: 1-2 energies per call, parameters in boxes of several decades; exp/log/pow axiomatised."),
"C02": dict(
    title="Spectra do not depend on how inputs are represented",
    statement="The flux computed by any radiative model depends only on the physical values of its "
        "inputs: not on the units of photon energies, of the particle distribution, of grid limits, "
        "fields, densities or temperatures, nor on whether photon energies come as a scalar, an array "
        "or a data table, nor on their order or on which other energies are computed in the same call. "
        "A spectrum has the shape of the energies asked for, and no call modifies its arguments.",
    quant="all photon energies, particle distributions and parameter values for every radiative model",
    why="tests use one unit system and one energy array; unit slips and cross-talk between array "
        "elements only show for other representations",
    files=[RAD], mech=[("_validate_ene", RAD), ("BaseRadiative.flux", RAD), ("_nelec/_particle grids", RAD)],
    bounds=ARR),
"C03": dict(
    title="Memoised spectra equal freshly computed ones",
    statement="The result of flux or sed on a radiative model equals the result a newly constructed "
        "model with the same current parameters would give, whatever was computed before on it or on "
        "other instances, in whatever order and number, and whatever the caller did with earlier "
        "results or with its particle distribution in between.",
    over=["histories", "inputs"],
    quant="all sequences of evaluations, parameter and distribution changes, unit changes and "
          "in-place modifications of returned arrays",
    why="tests compute each spectrum once or twice with the same parameters; stale cache entries need "
        "a history with colliding keys or aliased results",
    files=["src/naima/model_utils.py", RAD, MOD],
    mech=[("memoize decorator", "src/naima/model_utils.py"), ("_memoize flags and caches", RAD)],
    bounds="Bounded: histories of up to 4 calls with symbolic parameter values (thorough: longer)."),
"C05": dict(
    title="Flux, SED and distance are mutually consistent",
    statement="For every radiative model the SED equals the squared photon energy times the "
        "differential flux, a spectrum at a distance equals the intrinsic luminosity divided by "
        "4 pi times the squared distance, and a zero distance gives the intrinsic spectrum. Units are "
        "those documented for each case, and asking repeatedly at different distances gives consistent "
        "answers.",
    quant="all photon energies, distances (in any length unit) and particle distributions",
    why="tests check one distance in kpc at fixed energies",
    files=[RAD], mech=[("BaseRadiative.flux/sed", RAD), ("InverseCompton.flux/sed", RAD)], bounds=ARR),
"C06": dict(
    title="Emission and energy content scale with the number of particles",
    statement="Multiplying a particle distribution by a constant multiplies the flux and SED of every "
        "radiative model, the energy content of the particles and their number by the same constant, "
        "and the emission of a sum of distributions with proportional shape is the sum of emissions.",
    quant="all particle distributions, scale factors and photon energies",
    why="tests never compare two distributions related by a scale factor",
    files=[RAD], mech=[("_spectrum of every radiative class", RAD), ("compute_We/Wp", RAD)], bounds=ARR),
"C07": dict(
    title="Inverse Compton emission is the sum over its seed photon fields",
    statement="The inverse Compton spectrum of a model with several seed photon fields is the sum of "
        "the spectra of models with each field alone, independent of their order, and asking for a "
        "named or numbered seed returns exactly that field's contribution, whichever spectra were "
        "computed before. Named shorthand fields (CMB, FIR, NIR) equal the explicit black bodies given "
        "in the documentation.",
    over=["inputs", "configurations", "histories"],
    quant="all combinations of up to 3 seed fields of every kind, energy densities, electron "
          "distributions and photon energies",
    why="tests use one field configuration and never query one seed after another energy array",
    files=[RAD], mech=[("InverseCompton._process_input_seed", RAD), ("InverseCompton._spectrum", RAD),
                       ("InverseCompton.flux/sed with seed", RAD)], bounds=ARR),
"C08": dict(
    title="Emission is proportional to the density of targets",
    statement="Bremsstrahlung and pion-decay spectra are proportional to the gas density, the "
        "contribution of each inverse Compton seed field is proportional to its energy density, and "
        "the bremsstrahlung spectrum is the weighted sum of its electron-electron and electron-proton "
        "parts with the weights the user sets (including zero).",
    quant="all densities, weights, photon energies and particle distributions",
    why="tests use a single density and the default weights",
    files=[RAD], mech=[("Bremsstrahlung._spectrum weights", RAD), ("PionDecay._spectrum", RAD),
                       ("InverseCompton._process_input_seed", RAD)], bounds=ARR),
"C09": dict(
    title="Particle energies used span exactly the requested range",
    statement="The particle energy grid of a radiative model starts and ends at the limits the user "
        "set, increases strictly with at least the requested number of points per decade (never fewer "
        "than ten), and follows later changes of the limits. Energy content between given limits counts "
        "exactly the particles between them.",
    quant="all limits and resolutions, in any unit, and all later reassignments",
    why="tests only use default limits and one custom range",
    files=[RAD], mech=[("BaseElectron._gam/_nelec", RAD), ("BaseProton._Ep/_J", RAD),
                       ("compute_We/compute_Wp", RAD)],
    bounds="Bounded: grids of 10-40 points, ranges of 1.5-5 decades."),
"C10": dict(
    title="Particle energy content and normalisation agree",
    statement="The total energy reported for a particle distribution is the integral of energy times "
        "the distribution over the range asked for, and normalising a distribution to a given energy "
        "makes exactly that energy be reported afterwards, for the same range, with spectral shape "
        "unchanged. Normalising one model never changes another model's or the caller's parameters.",
    quant="all power-law and arbitrary distributions, energies and ranges",
    why="tests normalise one distribution once with the default range",
    files=[RAD], mech=[("compute_We/compute_Wp", RAD), ("set_We/set_Wp", RAD)], bounds=ARR),
"C11": dict(
    title="Log-log trapezoid integration is exact for power laws",
    statement="Integrating samples of a power law with the log-log trapezoid rule gives the analytic "
        "integral, including for index -1, and the integral of several intervals is the sum of the "
        "per-interval integrals. Zeros and degenerate intervals contribute nothing and never "
        "contaminate other intervals, results carry the product of the units and the axis selects the "
        "dimension integrated over.",
    quant="all positive samples, grids, indices, axes and units",
    why="tests integrate two power laws on one grid",
    files=[UT], mech=[("trapz_loglog", UT)],
    bounds="Bounded: 2-4 grid points, 1-2 rows, index at least 1e-6 from -1 or exactly -1."),
"C12": dict(
    title="Synchrotron emission follows the documented emissivity",
    statement="The synchrotron spectrum equals, at every photon energy, the Aharonian, Kelner & "
        "Prosekin (2010) random-field emissivity integrated over the electron distribution between the "
        "electron energy limits, for any magnetic field. Defaults for field and limits are the "
        "documented ones.",
    quant="all photon energies, magnetic fields, electron distributions and electron energy ranges",
    why="tests compare the integral over one spectrum with a stored number at 0.3-3% tolerance",
    files=[RAD], mech=[("Synchrotron._spectrum", RAD)], bounds=ARR),
"C13": dict(
    title="Inverse Compton emission follows the documented scattering kernels",
    statement="The inverse Compton spectrum on each seed field equals the integral over electrons of "
        "the Khangulyan et al. (2014) kernel for isotropic or anisotropic black bodies, or of the "
        "Aharonian & Atoyan (1981) kernel for monochromatic and tabulated fields, scaled to the field's "
        "energy density. Electrons below the kinematic limit contribute nothing.",
    quant="all photon energies, temperatures, angles, seed energies and densities, electron "
          "distributions",
    why="tests compare integrated luminosities of a few fields with stored numbers",
    files=[RAD], mech=[("_iso_ic_on_planck, _ani_ic_on_planck, _iso_ic_on_monochromatic", RAD),
                       ("G12, G34", RAD), ("_calc_specic", RAD)], bounds=ARR),
"C14": dict(
    title="Bremsstrahlung follows the documented cross sections",
    statement="The bremsstrahlung spectrum equals the integral over electrons of the Baring et al. "
        "(1999) electron-electron (non-relativistic below 2 MeV, relativistic above) and electron-ion "
        "cross sections. Electrons with less energy than the photon contribute nothing.",
    quant="all photon energies, electron distributions and energy ranges around the 2 MeV transition",
    why="tests compare one integrated luminosity with a stored number",
    files=[RAD], mech=[("_sigma_1, _sigma_2, _sigma_ee_rel, _sigma_ee_nonrel, _F", RAD),
                       ("_emiss_ee, _emiss_ep", RAD)], bounds=ARR),
"C15": dict(
    title="Pion-decay emission follows the documented pp parametrisation",
    statement="Computed without look-up tables, the pion-decay spectrum equals the integral over "
        "protons of the Kafexhiu et al. (2014) differential cross section for the selected hadronic "
        "model, with the nuclear enhancement factor when requested. Each regime of proton energy uses "
        "its own parameters, and protons below the production threshold contribute nothing.",
    quant="all photon and proton energies, proton distributions, the four hadronic models",
    why="tests compare four integrated luminosities with stored numbers; a parameter used in the "
        "wrong energy range moves them by less than the tolerance",
    files=[RAD], mech=[("_sigma_inel, _sigma_pi*, _b_params, _Amax, _F, _nuclear_factor", RAD),
                       ("PionDecay._diffsigma", RAD)],
    bounds="Bounded: symbolic proton energy per regime (0.28 GeV-1 PeV); spectra on 10-20 point grids."),
"C16": dict(
    title="The Kelner et al. (2006) pion-decay model follows its formulas",
    statement="Above the transition energy the spectrum is the documented integral of the gamma-ray "
        "yield, inelastic cross section and proton distribution; below, the delta-function "
        "approximation, normalised to agree at the transition energy whenever a call spans it. The "
        "normalisation of one call does not leak into another.",
    over=["inputs", "histories"],
    quant="all photon energies, transition energies, densities and proton distributions",
    why="tests compare one integrated luminosity",
    files=[RAD], mech=[("PionDecayKelner06._spectrum", RAD), ("_Fgamma, _sigma_inel", RAD),
                       ("_calc_specpp_hiE, _calc_specpp_loE", RAD)],
    bounds="Bounded: 1-2 energies; quadrature replaced by a two-node linear rule on both sides."),
"C17": dict(
    title="Validated data tables keep the measurements they were made from",
    statement="Validating one or several data tables yields every measurement exactly once, in order "
        "of energy, with the same physical energy, flux, lower and upper flux errors and energy bin, "
        "whatever column layout and units they were given in, all as SED or all as differential "
        "spectrum (the form of the first table unless requested otherwise). Validation is idempotent, "
        "does not modify its input, and refuses tables with missing or mismatched columns. "
        "build_data_table makes a table of the measurements it is given.",
    quant="all energies, fluxes, errors, column layouts, units and combinations of tables",
    why="tests read a handful of stored tables and check that validation succeeds, not the values",
    files=[UT], mech=[("validate_data_table, _validate_single_data_table, build_data_table", UT)],
    bounds="Bounded: one to three tables of 1-3 rows; astropy tables executed on symbolic columns."),
"C18": dict(
    title="Conversion between differential spectra and SEDs",
    statement="sed_conversion returns the unit and factor that turn a differential flux, power or "
        "energy spectrum into E^2 times it and back, for any input unit of the same physical type. A "
        "spectrum already in the requested form is unchanged, there-and-back is the identity, and "
        "quantities that are not spectra are refused with a units error.",
    quant="all energies, spectra and compatible units",
    why="tests check a few unit combinations",
    files=[UT], mech=[("sed_conversion", UT)],
    bounds="Bounded: scalars and arrays of 1-2 energies, 14 units of six physical types, 12 refused units."),
"C19": dict(
    title="Energy bins derived from energies are contiguous and order independent",
    statement="When a table gives no energy bins, the bins of each group meet at the geometric mean of "
        "neighbouring energies, contain their energies and have positive edges; the outermost bins "
        "take the width documented by the code's rule. Each energy gets the same bin whatever the "
        "order of the energies, and groups do not influence each other.",
    quant="all energies, orders and groupings",
    why="tests use one sorted table",
    files=[UT], mech=[("generate_energy_edges", UT)],
    bounds="Bounded: 1-4 energies (5 thorough), up to three groups."),
"C20": dict(
    title="Upper limits penalise a model only above the limit, by the confidence level",
    statement="Points flagged as upper limits (boolean, integer or True/False text flags) use the "
        "flux_ul column where given, otherwise the flux, as the limit. They contribute nothing to the "
        "log-likelihood while the model is at or below the limit and log(1-cl) when it is above, where "
        "cl is the confidence level of the table they came from, 0.9 by default. Their flux errors "
        "never matter.",
    quant="all limits, models, confidence levels, flags and combinations of tables",
    why="tests run fits with upper limits without checking the likelihood",
    files=[UT, CORE], mech=[("_validate_single_data_table: ul, flux_ul, cl", UT), ("lnprobmodel", CORE)],
    bounds="Bounded: one or two tables of 1-3 rows."),
"C21": dict(
    title="The likelihood of detections is the documented asymmetric Gaussian",
    statement="The log-likelihood of the detected points is the sum of -(model-flux)^2/(2 error^2) "
        "with the upper error where the model is above the data and the lower error where it is below, "
        "evaluated with model and data in the same form. It does not depend on the units of the model, "
        "the data or the energies, nor on extra model outputs or earlier evaluations.",
    quant="all data, errors, model values, units and SED/differential combinations",
    why="tests check that the sampler runs and one likelihood value",
    files=[CORE, UT], mech=[("lnprobmodel, lnprob", CORE), ("sed_conversion", UT)],
    bounds="Bounded: one or two tables of 1-3 rows."),
"C22": dict(
    title="Priors return the log of their documented densities",
    statement="uniform_prior is 0 inside the closed range and -inf outside; normal_prior is the log of "
        "the normalised Gaussian density; log_uniform_prior is -log(value) for positive values inside "
        "the closed limits and -inf otherwise. Priors add up in the posterior.",
    quant="all values, limits, means and widths",
    why="tests evaluate three points",
    files=[CORE], mech=[("uniform_prior, normal_prior, log_uniform_prior", CORE)],
    bounds="Bounded: values and limits in boxes of several decades and both signs."),
"C23": dict(
    title="The posterior of every sample and its blobs are consistent",
    statement="The log-posterior handed to the sampler is the log-likelihood of the first model output "
        "plus the log-prior, and -inf whenever the prior forbids the parameters, even where the model "
        "is not finite. Every output of the model function is stored for every sample, accepted or "
        "not, in order, with its unit and shape, for any layout of outputs.",
    over=["inputs", "histories"],
    quant="all model outputs, layouts, priors and parameters",
    why="tests check the layout of two models",
    files=[CORE], mech=[("lnprob", CORE)],
    bounds="Bounded: eleven output layouts, batches of up to three walkers through emcee's evaluation."),
"C24": dict(
    title="The bundled minimiser performs Nelder-Mead steps and reports honestly",
    statement="minimize starts from the documented simplex and every iteration is the standard "
        "reflection/expansion/contraction/shrink step; it returns the best point it evaluated with "
        "that point's value and the number of evaluations, reports success only when both relative "
        "tolerances hold, status 1 when the evaluation limit is reached and status 2 for the iteration "
        "limit, passes further arguments on unchanged and leaves the starting point alone.",
    over=["inputs", "histories"],
    quant="all objectives, starting points and tolerances",
    why="tests minimise one smooth function",
    files=["src/naima/extern/minimize.py"],
    mech=[("_minimize_neldermead", "src/naima/extern/minimize.py")],
    bounds="Bounded: 1-2 parameters, 1-3 iterations (3 parameters, 4-5 iterations thorough); "
        "the objective is an uninterpreted function."),
"C25": dict(
    title="The optional prefit never starts the chain from a forbidden or failed point",
    statement="With prefit, get_sampler maximises the likelihood without the prior, starting from the "
        "(guessed) initial parameters. The result becomes the starting point if the fit converged or "
        "ran out of evaluations and the prior allows it; otherwise the original parameters are kept. "
        "Walkers are spread by 0.5% around a converged fit and by 10% otherwise.",
    over=["inputs", "histories"],
    quant="all fit outcomes, priors, data and initial parameters",
    why="tests run one successful fit",
    files=[CORE], mech=[("_prefit", CORE), ("get_sampler", CORE)],
    bounds="Bounded: 1-2 parameters, 1-2 points; the minimiser's result is arbitrary (decided by C24)."),
"C26": dict(
    title="The sampler is set up with the documented starting point and metadata",
    statement="get_sampler scales the single parameter whose label names a normalisation (norm, ampl, "
        "We, Wp, also inside log( or log10(, in any case) so that the energy integral of the model "
        "equals that of the data, and no other parameter; with no or several such labels, or "
        "guess=False, it changes nothing. It pads missing labels, gives each walker a starting point, "
        "records its settings, keeps the caller's arguments unmodified, and refuses missing data, "
        "missing models and models that are not spectra.",
    quant="all data, models, initial parameters, labels and spectral forms",
    why="tests check one label and one form",
    files=[CORE], mech=[("get_sampler", CORE)],
    bounds="Bounded: 2-3 parameters, 2-3 points, twenty label lists."),
"C27": dict(
    title="Best fit and results table summarise the stored samples",
    statement="find_ML returns the stored sample of highest log-probability: its parameters, half the "
        "distance between the 16th and 84th percentile of each parameter, and the model output stored "
        "for that very sample (or computed at it when none is stored), with the data energies unless "
        "the output brings its own. save_results_table reports median and 16th/84th percentile "
        "distances of every parameter, of 10**x or exp(x) for parameters labelled log10(...) or "
        "log(...), and of every scalar blob, from all samples or only the last step, with the "
        "maximum-likelihood parameters, the BIC k ln(n) - 2 ln(Lmax), and the run information as "
        "metadata.",
    over=["inputs", "histories"],
    quant="all chains, log-probabilities, blobs and labels",
    why="tests only check that files are written",
    files=[AN, PL], mech=[("find_ML", PL), ("save_results_table", AN)],
    bounds="Bounded: 1-2 steps of 2-3 walkers, 1-2 parameters; no ties among samples."),
"C28": dict(
    title="Plotted fits show the stored samples",
    statement="plot_fit and plot_blob draw, as best fit, the stored model of highest log-probability; as "
        "confidence bands, at each energy and for every confidence level in any order, the order "
        "statistics of the stored models at the normal-distribution quantiles of +-conf sigma; as sample "
        "curves, stored models; or models computed from stored parameters when a new energy range is "
        "given. All are converted to the requested flux or SED and energy unit, for model outputs "
        "with or without their own energies; arguments are left unmodified. Runs without "
        "model function can be plotted. Scalar outputs are shown as the distribution of all their "
        "samples with their unit.",
    over=["inputs", "histories"],
    quant="all stored samples, confidence levels, unit systems and output layouts",
    why="tests only check that a figure is returned",
    files=[PL], mech=[("_calc_CI/_plot_CI", PL), ("_calc_samples/_plot_samples", PL),
                      ("_calc_ML", PL), ("_process_blob/_read_or_calc_samples", PL), ("plot_fit", PL)],
    bounds="Bounded: 3-8 samples at two energies (three for a new energy range)."),
"C29": dict(
    title="Saved runs read back unchanged",
    statement="A run written with save_run and restored with read_run has the same chain, flat chain, "
        "log-probabilities, parameter labels, data table, run information and, for every sample and "
        "every output form (spectra with or without their own energies, scalars with or without units, "
        "arrays, strings), the same blobs; the best fit, results table and a further save of the "
        "restored run agree with those of the original. An existing file is replaced only with clobber; "
        "run information that HDF5 cannot store is kept as text.",
    over=["inputs", "histories"],
    quant="all chains, stored outputs, units and run information",
    why="tests write and read one run and look at few of its values",
    files=[AN], mech=[("save_run", AN), ("read_run", AN), ("_result", AN)],
    bounds="Bounded: 1-3 steps of 2-3 walkers, 1-2 parameters, up to four outputs per sample; HDF5 is an "
           "in-memory store while symbolic."),
"C30": dict(
    title="Sherpa wrappers compute the spectra of the radiative models",
    statement="Every parameter of the Sherpa model wrappers enters the corresponding naima model with its "
        "documented meaning and unit (distance, indices, particle energies, cutoff, amplitude, magnetic "
        "field, temperatures, densities, verbosity), whether set at construction or later. On binned "
        "grids the model returns the photon flux integrated over each bin, on unbinned grids "
        "E dN/dE, and guess scales only the amplitude, by the ratio of data to model.",
    over=["inputs", "histories"],
    quant="all energies, bins and parameter values",
    why="tests evaluate the defaults on one grid and check that the result is finite",
    files=[SH], mech=[("SherpaModelECPL.calc", SH), ("SherpaModelECPL.guess", SH),
                      ("InverseCompton", SH), ("Synchrotron", SH), ("Bremsstrahlung", SH),
                      ("PionDecay", SH)],
    bounds="Bounded: 1-3 bins or energies; radiative spectra are an arbitrary function of their state."),
"C31": dict(
    title="Tabulated models interpolate their table and EBL absorption is a transmission",
    statement="TableModel returns the tabulated values times the amplitude at the tabulated energies, in "
        "the unit of the table, is zero outside the table, reproduces a tabulated power law exactly "
        "between the points, and does not depend on the units of its energies. EblAbsorptionModel gives "
        "exp(-tau) of the tabulated redshift closest to the requested one, 1 below the table, the last "
        "value above it, for scalars and arrays, in any energy unit; it refuses negative redshifts and "
        "unknown models, and tables and energies that are malformed are refused.",
    quant="all tables, amplitudes, energies, units and redshifts",
    why="tests evaluate one table and a few redshifts at fixed energies",
    files=[MOD], mech=[("TableModel", MOD), ("EblAbsorptionModel.transmission", MOD)],
    bounds="Bounded: tables of 4-5 energies, three redshift windows; scipy's interp1d is replaced by its "
           "contract."),
"C32": dict(
    title="Magnetic field estimate follows from the luminosity ratio",
    statement="estimate_B returns sqrt(8 pi u_ph L_x / L_gamma), with the energy-integrated fluxes of the "
        "two tables, for any kind of spectrum (differential or energy flux or luminosity), units, order "
        "of points and photon energy density (0.261 eV/cm3 by default), counting upper limits at their "
        "value, and leaves the tables unmodified.",
    quant="all spectra, energies, units and photon energy densities",
    why="tests estimate the field of one pair of files",
    files=[UT], mech=[("estimate_B", UT)],
    bounds="Bounded: 2-3 points per table; trapezoid rule replaced by its contract (C11)."),
"C33": dict(
    title="Parameters with wrong units, shapes or signs are refused",
    statement="The validators accept a value exactly when it has the requested physical type, dimensions and "
        "shape and lies in the requested domain, and return it unchanged. Constructors, seed photon "
        "fields, distances and photon energies of wrong physical type, negative scalar parameters, and "
        "particle distributions that do not return particles per energy raise an error instead of "
        "giving a spectrum.",
    quant="all values of either sign, units and shapes",
    why="tests try a few wrong arguments",
    files=["src/naima/extern/validator.py", RAD, MOD],
    mech=[("validate_scalar", "src/naima/extern/validator.py"),
          ("validate_array", "src/naima/extern/validator.py"),
          ("validate_physical_type", "src/naima/extern/validator.py"),
          ("InverseCompton._process_input_seed", RAD), ("BaseRadiative.flux", RAD)],
    bounds="Bounded: types, units and shapes enumerated, values symbolic."),
"C34": dict(
    title="Plotted data points, upper limits and residuals show the data",
    statement="plot_data and plot_fit draw each point once, at its energy and flux or SED in the requested "
        "energy unit, with its energy bin and lower and upper errors (an error bar reaching zero ends "
        "just above it), and each upper limit as an arrow of the requested fraction at its value; "
        "groups have distinct styles, all bins are inside the axes, and a second data set is drawn in "
        "the energy unit of the first. Residuals are (data - model)/mean error at each detected point, "
        "with the model interpolated if it has its own energies. Options of one plot do not affect the "
        "next, and data and options are left unmodified.",
    over=["inputs", "histories"],
    quant="all energies, fluxes and errors of any size and sign, groups, limits and unit systems",
    why="tests only check that a figure is returned",
    files=[PL], mech=[("_plot_data_to_ax", PL), ("_plot_ulims", PL), ("_plot_residuals_to_ax", PL),
                      ("plot_data", PL)],
    bounds="Bounded: 1-3 points; matplotlib is replaced by a recording figure."),
"C35": dict(
    title="The interactive fitter shows and hands on the parameters of its sliders",
    statement="After any sequence of moving sliders, switching the automatic update, updating and fitting, "
        "the curve and log-likelihood shown are those of the parameters last updated or fitted, parameters "
        "that were not moved keep their initial values whatever their sign, size and label, fits start at "
        "the slider positions, use the data without prior and move the sliders only if they converged, and "
        "the resulting parameters count as a maximum-likelihood fit exactly if the last action was a "
        "converged fit. get_sampler(interactive=True) starts from them.",
    over=["histories", "inputs"],
    quant="all sequences of actions, slider positions, fit results and data",
    why="tests construct the window and press each button once",
    files=["src/naima/model_fitter.py", CORE],
    mech=[("InteractiveModelFitter", "src/naima/model_fitter.py"), ("get_sampler", CORE)],
    bounds="Bounded: two parameters, up to three actions; matplotlib's widgets are stand-ins."),
"C36": dict(
    title="Runs have the requested length, start where they should and can be continued",
    statement="run_sampler discards the burn-in, starts from the walkers it left (or from the given sampler "
        "and positions) and stores exactly nrun steps with the posterior and blobs of each sample; it "
        "returns the last positions and records walkers, burn-in and run lengths, starting point and "
        "median after burn-in. The sampler can be run again from its final positions, with any number of "
        "processes, and no worker process is left behind.",
    over=["histories", "inputs"],
    quant="all proposals, acceptances, starting points, run lengths and process counts",
    why="tests run the sampler once, from a random start",
    files=[CORE], mech=[("run_sampler", CORE), ("get_sampler", CORE), ("_run_mcmc", CORE)],
    bounds="Bounded: 2 walkers, 1-2 parameters, 0-2 burn-in and 1-21 run steps; emcee is replaced by its "
           "contract."),
"C37": dict(
    title="Tabulated pion-decay cross sections belong to the model they are used for",
    statement="A pion-decay model uses the packaged look-up table only when useLUT is set and the selected "
        "hadronic model and nuclear enhancement are those the table was made for, interpolated in the "
        "logarithms of both energies with a cubic spline; otherwise it warns and uses the exact cross "
        "section, whatever was selected or computed before on this or other models. A table made by "
        "generate_lut_pp holds the cross section of its own model at its nodes.",
    over=["inputs", "histories"],
    quant="all photon energies, proton distributions and sequences of selections",
    why="tests compute one spectrum with the packaged table and one with a missing table; no test changes "
        "the selection of a model or generates a table",
    files=[RAD], mech=[("PionDecay._spectrum", RAD), ("PionDecay._loadLUT", RAD), ("LookupTable", RAD),
                       ("generate_lut_pp", RAD)],
    bounds="Bounded: 1-2 photon energies, 10-point proton grids, histories of up to three selections, "
           "generated tables of 4x4 points; scipy's spline is replaced by its contract."),
"C38": dict(
    title="Sample-distribution summaries show and print the distribution they summarise",
    statement="plot_chain and plot_distribution show every walker of the chosen parameter and the "
        "histogram of all samples (or of the last step when asked), mark their median and 16th and 84th "
        "percentiles, and print the median, standard deviation and uncertainties so that the printed "
        "numbers and power of ten read back to those values to better than the uncertainty; a log or "
        "log10 parameter is also given converted. plot_corner shows all samples with their labels and "
        "the maximum-likelihood parameters. save_diagnostic_plots saves one figure per parameter, one "
        "corner plot and one per model output, each with its own index, label and file, skips those "
        "that fail, and leaves its arguments as they were.",
    quant="all chains, log-probabilities, scales of the samples and choices of outputs",
    why="tests only check that the files appear for one sampler with labels of its own",
    files=[PL, AN], mech=[("_plot_chain_func", PL), ("_latex_value_error", PL), ("plot_distribution", PL),
                       ("plot_corner", PL), ("save_diagnostic_plots", AN)],
    bounds="Bounded: chains of 1-2 steps of 2-4 walkers with 2 parameters, values of four magnitudes and "
           "both signs; drawing, density estimate and corner are recorders."),
"C90": dict(claim=False,
    title="MCMC sampling converges to the posterior distribution",
    statement="Samples drawn by the fitting routines are distributed as the posterior probability "
        "defined by the data, model and prior.",
    over=["schedules", "inputs"], quant="all random histories of the sampler",
    why="tests run a few steps with a fixed model",
    files=[CORE], mech=[("run_sampler", CORE)], bounds=""),
"C91": dict(claim=False,
    title="Look-up tables reproduce the exact pion-decay cross section",
    statement="Gamma-ray spectra computed with the precomputed cross-section tables agree with those "
        "computed from the exact parametrisation to the documented accuracy.",
    quant="all photon and proton energies and hadronic models",
    why="tests compare a single spectrum",
    files=[RAD], mech=[("PionDecay._loadLUT", RAD), ("LookupTable", UT)], bounds=""),
}
