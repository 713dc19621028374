"""Single source of properties.jsonl and MANIFEST.json (see gen.py)."""

S = "src/lightcurvelynx/"
NOTES = "All checks parse /repo/src on every run with the engine in lcx/ (abstract interpretation, value numbering, alias and effect analysis); nothing of /repo is imported or executed."
TRUST = ("Sound for the paths the abstract interpreter covers; an obligation it cannot decide is counted as undecided in the evidence and never alarms. "
         "Trusted: the engine in lcx/, and that numpy, pandas, astropy, scipy and sncosmo behave as documented.")


def P(id, title, statement, over, text, why, files, mech, technique, note="", **k):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[S + f for f in files],
                mech=[(n, S + w) for n, w in mech], technique=technique, note=(note + " " + TRUST).strip(), **k)


PROPS = [
    P("C01", "Every random draw uses the generator the caller supplied",
      "When a caller passes a random number generator to sampling, evaluation or simulation, every random number used while serving that call comes from that generator. "
      "No node, effect, model, survey helper or simulation step falls back to a global, freshly created or its own generator when one was supplied.",
      ["programs", "configurations", "inputs"], "all graphs of nodes, models, effects and surveys; all call paths from a public entry that accepts a generator to a draw",
      "Tests compare a handful of seeded outputs; a draw on a path they do not take (another node type, effect, extrapolation or multi-survey path) can silently use another generator.",
      ["simulate.py", "base_models.py", "models/physical_model.py", "math_nodes/np_random.py", "effects/white_noise.py", "astro_utils/snia_utils.py", "models/agn.py"],
      [("rng_info forwarding", "base_models.py"), ("FunctionNode.compute / _non_func_sample", "base_models.py"), ("simulate_lightcurves", "simulate.py")],
      "interprocedural dataflow of generator values to draw sites (abstract interpretation over the AST)"),
    P("C02", "A seeded run gives the same result every time",
      "A node, sampler or model built with a seed (0 included, given to its own constructor or to that of a base class), or given one later with set_seed, draws only from generators made from that seed whenever the caller supplies no generator; so do the samplers it makes for itself and the functions that create random surveys from a seed. "
      "Fresh randomness is used only where neither a generator nor a seed was given. "
      "Apart from the draws, equal inputs give equal results in every process: nothing depends on the order of a set or of a directory listing, on hash values, object identity, the clock or the process.",
      ["programs", "configurations", "histories"], "every class and function that accepts a seed, all seeds, in every process; every use of a set or a directory listing in the package",
      "Tests fix one seed in one process and give most samplers an explicit generator; string hashing and directory order differ only between processes and machines.",
      ["math_nodes/np_random.py", "math_nodes/scipy_random.py", "math_nodes/given_sampler.py", "math_nodes/distribution_sampler.py", "math_nodes/ra_dec_sampler.py", "astro_utils/snia_utils.py", "models/agn.py",
       "models/multi_object_model.py", "models/static_sed_model.py", "models/lightcurve_template_model.py", "astro_utils/passbands.py", "obstable/opsim.py", "obstable/ztf_obstable.py"],
      [("NumpyRandomFunc.set_seed", "math_nodes/np_random.py"), ("create_random_opsim", "obstable/opsim.py"), ("PassbandGroup.from_dir", "astro_utils/passbands.py"), ("MultiLightcurveTemplateModel", "models/lightcurve_template_model.py")],
      "dataflow of seeds to draw sites (abstract interpretation) and order-sensitivity analysis of unordered collections",
      "Bilby's priors use bilby's process-wide generator, as documented, and are left out. Third-party code is taken to be deterministic."),
    P("C03", "Each node is sampled once per draw, every parameter from its own source",
      "Sampling a model visits each node of its graph exactly once, dependencies before dependents, and sets every parameter from its own source: a constant as given, the linked parameter of the linked node, the output of its own function node called on that node's sampled inputs, or the node's computed output (last). "
      "All parameters of a draw describe the same sample; values passed in stay as given and are not resampled. Setting a parameter records the caller's kind of source; unknown or duplicate names are rejected. "
      "Node names are unique and built from label, position and class; a node reads parameters of its own name only; function nodes store each output under its name. "
      "The dependency graph and the gradient tree list exactly the parameters involved.",
      ["programs", "inputs", "configurations"], "all graphs of nodes, all kinds of parameter source, all sample counts and all given values",
      "Tests build small graphs of a few nodes; a wrong link, a second sampling of a shared node or an overwritten given value needs a particular shape of graph.",
      ["base_models.py"],
      [("ParameterizedNode.set_parameter, _sample_helper", "base_models.py"), ("FunctionNode.compute, _build_inputs, _save_results", "base_models.py"), ("ParameterSource", "base_models.py")],
      "abstract interpretation of the node classes compared with reference semantics (stores, calls, rejected inputs)"),
    P("C04", "GraphState returns exactly what was stored, sample by sample",
      "A GraphState returns for every node and parameter the value set for it: one value per sample when an array or list of that length was given, the same value for every sample otherwise, the very value when a copy is not asked; "
      "values marked fixed are not overwritten. Extracting sample i takes entry i of every parameter; slicing or copying leaves the original unchanged. Lookup, membership, size and equality follow the stored values; bad names, lengths and unknown parameters are rejected. "
      "Merging other states or inputs adds exactly their parameters. Dictionary, table, list and file conversions keep every parameter under its full name, in sample order. extract_parameters returns each requested parameter from the nodes that hold it. "
      "A DependencyGraph lists each parameter once and every edge in both directions.",
      ["inputs", "histories"], "all node and parameter names, sample counts, value kinds and histories of set/update/extract calls",
      "Tests store two or three parameters and read them back; an aliased buffer, a mixed-up sample index or a lost fixed flag shows only for particular sizes, names and histories.",
      ["graph_state.py"],
      [("GraphState.set, update, extract_single_sample", "graph_state.py"), ("GraphState.from_dict, from_table, from_list, to_dict, to_table", "graph_state.py"), ("DependencyGraph", "graph_state.py")],
      "abstract interpretation of the container classes with sequence-valued dictionaries, compared with reference semantics"),
    P("C05", "Operations change only what they are documented to change",
      "Evaluating models and band fluxes, applying effects, sampling, simulating, searching surveys, computing noise and converting units leave every argument (arrays, tables, dictionaries, lists, passbands, graph states) as it was: nothing is rescaled, sorted, filled or extended in place. "
      "They also leave the object they are called on, and the data it was built from, unchanged, so repeating a call gives the same result; shared module and class data are never written. "
      "Only the operations that set, add, clear, reset, filter or process change their own object; sampling fills the graph state of its draw, advances the position in given lists and tables, and refreshes node names; "
      "augmenting result tables adds its columns to the table it is given.",
      ["inputs", "histories", "programs"], "every public function, constructor and method, inherited ones in each concrete class; all arguments and all histories of calls",
      "Tests use fresh inputs and look at one result; a buffer changed in place shows only when the caller uses the same array, state or object again.",
      ["base_models.py", "graph_state.py", "simulate.py", "models/physical_model.py", "models/basic_models.py", "effects/basic_effects.py", "astro_utils/passbands.py", "obstable/obs_table.py", "astro_utils/noise_model.py", "utils/post_process_results.py"],
      [("evaluate_sed, evaluate_bandfluxes", "models/physical_model.py"), ("EffectModel.apply", "effects/effect_model.py"), ("Passband.fluxes_to_bandflux", "astro_utils/passbands.py"), ("ObsTable queries", "obstable/obs_table.py"), ("GraphState.extract_single_sample", "graph_state.py")],
      "interprocedural effect and ownership analysis (abstract interpretation; every in-place construct must act on a fresh value or a documented owner)",
      "In-place changes inside third-party objects (a sncosmo source, a redback model) are outside the analysis."),
    P("C07", "Effects are applied once each, in order, in their own frame",
      "Every effect added to a model acts exactly once per evaluation, in the order added: rest-frame effects on the rest-frame spectrum at rest-frame times and wavelengths before the redshift factor, "
      "observer-frame effects after it at the observed times and wavelengths; band-flux models apply each effect once to the computed band fluxes. Each call gets the sampled parameters of the same object and the caller's generator. "
      "Adding an effect stores it once, in the list of its frame, and registers every parameter it needs; composite models do so for their children or themselves.",
      ["programs", "inputs"], "all models, effect lists, frames, redshifts and parameter values",
      "Tests use one or two effects on simple models; order, frame or double application matters only for particular combinations.",
      ["models/physical_model.py", "models/multi_object_model.py", "effects/effect_model.py", "effects/extinction.py", "effects/microlensing.py", "effects/basic_effects.py", "effects/white_noise.py"],
      [("SEDModel._evaluate_single, add_effect", "models/physical_model.py"), ("MultiObjectModel", "models/multi_object_model.py"), ("EffectModel", "effects/effect_model.py")],
      "value numbering of the evaluation loops compared with a reference pipeline; call-set comparison for registration"),
    P("C08", "Every flux is evaluated for its own sample, time, wavelength and filter",
      "Row i of an evaluation is the flux of sample i of the graph state at the requested times and wavelengths; an observation's band flux is the band flux of its own filter at its own time, and mismatched or missing filters are rejected. "
      "A model keeps the parameters and settings it was built with. Additive models return the weighted sum over their objects, random models the flux of the object selected for that sample, each object keeping its own name. "
      "Light-curve templates hold each filter's curve relative to its start, in flux, interpolate the selected curve at t - t0 (wrapped by the period if periodic), use that filter's baseline outside it, and reject malformed, unsorted or non-periodic curves. "
      "A template's SED reproduces its band flux through a per-filter basis that no other filter sees.",
      ["inputs", "configurations", "programs"], "all models, graph states, times, wavelengths, filter sequences, weights and template curves",
      "Tests evaluate one or two samples and ordered filters; a mixed-up sample, filter mask, period, baseline or selected object agrees for symmetric inputs.",
      ["models/physical_model.py", "models/multi_object_model.py", "models/lightcurve_template_model.py", "models/static_sed_model.py"],
      [("evaluate_sed, evaluate_bandfluxes", "models/physical_model.py"), ("AdditiveMultiObjectModel, RandomMultiObjectModel", "models/multi_object_model.py"), ("LightcurveData, _create_sed_basis", "models/lightcurve_template_model.py")],
      "abstract interpretation of the evaluation code compared with reference semantics (entries, masks, state, calls, rejected inputs)"),
    P("C16", "Band fluxes are the documented integral over the right passband",
      "A passband's table is read in its own units (duplicates averaged), interpolated to the wavelength grid, trimmed to the requested quantiles and normalised to phi_b(l) = (T/l) / integral(T/l); its band flux is the sum of flux times phi_b over its own wavelengths times the grid step, entry by entry in time and sample. "
      "A PassbandGroup maps each full name, and each filter name used by one passband only, to that passband; its wavelengths are the union of its passbands' grids, and each passband integrates exactly the columns at its own wavelengths. Unknown or ambiguous names, wrong shapes and malformed tables are rejected. "
      "Presets, directories, files and sncosmo bands build each passband from its own table, names and settings.",
      ["inputs", "configurations"], "all transmission tables, grids, quantiles, units, filter sets and flux arrays; tables are compared entry by entry, not array shapes",
      "Tests use two or three regular tables with common grids; a misplaced column, a wrong normalisation factor or a mixed-up name cancels for symmetric or single-filter inputs.",
      ["astro_utils/passbands.py"],
      [("Passband.process_transmission_table, fluxes_to_bandflux", "astro_utils/passbands.py"), ("PassbandGroup._update_waves, fluxes_to_bandflux", "astro_utils/passbands.py")],
      "abstract interpretation of the passband classes compared with reference semantics (tables, masks, state, calls, rejected inputs)"),
    P("C17", "Wavelengths outside a model's range are extrapolated as documented",
      "For wavelengths inside a model's minimum and maximum wavelength the flux is the model's own; wavelengths below or above are extrapolated by the model's extrapolation object from the flux at the nearest bound, or are zero without one; a missing bound means no limit on that side. "
      "The extrapolation objects return, for every time and queried wavelength: zero, the given constant, the boundary flux, the boundary flux times the linear decay clip(1 - d/width, 0, 1), or times exp(-rate*d), d being the distance from the bound; invalid settings are rejected.",
      ["inputs"], "all query wavelengths, bounds, boundary fluxes and extrapolation settings",
      "Tests query a few wavelengths on each side; queries on one side only, on a bound, or with a missing bound take other paths.",
      ["models/physical_model.py", "utils/wave_extrapolate.py"],
      [("SEDModel.compute_sed_with_extrapolation", "models/physical_model.py"), ("ConstantExtrapolation, LastValueExtrapolation, LinearDecay, ExponentialDecay", "utils/wave_extrapolate.py")],
      "abstract interpretation of the extrapolation path compared with reference semantics"),
    P("C09", "Every simulated row is one observation of its own object",
      "simulate_lightcurves draws the objects once for all surveys; object i searches each survey at its own position inside its own time window (t0 - before, t0 + after; one-sided where an end is None, none without t0). "
      "The time, filter, true flux, noisy flux, error, survey index and saved columns of a row belong to the same observation, restricted to the observation mask when asked; a survey without a saved column contributes nulls. "
      "nobs counts the rows of an object over all surveys and each object row carries its own sampled parameters. Invalid counts or unmatched surveys and passbands are rejected. "
      "Noise-free light curves are evaluated per object at the requested rest-frame phases, stretched by its redshift and shifted to its t0, in every passband.",
      ["inputs", "configurations"], "all models, sample counts, survey lists, time windows, masks, saved columns and phase ranges",
      "Tests simulate a few objects with one or two regular surveys; a misaligned index between objects, surveys and observations agrees when the surveys or objects look alike.",
      ["simulate.py"],
      [("simulate_lightcurves, get_time_windows", "simulate.py"), ("compute_noise_free_lightcurves", "simulate.py")],
      "abstract interpretation of the simulation loop compared with a reference pipeline (calls, accumulated columns, frames, rejected inputs)"),
    P("C13", "Survey searches return exactly the matching observations",
      "Searching a survey returns exactly the positions of the observations whose pointing lies within the radius of the query, whose time is inside the requested window (bounds included) and whose detector footprint, rotated to the pointing, contains the query; "
      "get_observations returns the values of exactly those rows. A table copies its input, maps and checks its columns, rejects invalid input, and after filtering rows its index and filter list describe the remaining rows. "
      "Survey subclasses derive their columns (times, zero points, exposure, footprint, Roman characterisation) for the right rows, and resampled or random tables hold what is documented. Reading never creates or alters a file; writing does not replace an existing one unless asked.",
      ["inputs", "configurations"], "all tables, column maps, query positions, radii, time windows, footprints and row filters; all supported surveys",
      "Tests query a few points on small regular tables; a boundary, a stale index, label against position addressing or a per-filter mix-up shows only on particular tables or histories of calls.",
      ["obstable/obs_table.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py", "obstable/roman_obstable.py", "astro_utils/detector_footprint.py"],
      [("ObsTable.range_search, filter_rows, get_observations", "obstable/obs_table.py"), ("DetectorFootprint.contains", "astro_utils/detector_footprint.py"), ("oversample_opsim", "obstable/opsim.py")],
      "abstract interpretation of the table classes compared with reference semantics (results, attributes, calls, rejected inputs)"),
    P("C14", "The noise model has every documented contribution from the right data",
      "The standard deviation of a simulated flux is the zero point times the root of the sum of the documented source, sky, readout (per pixel and per exposure, or the value of a readout function of the exposure time) and dark-current variances, and noisy fluxes are Gaussian around the true flux with that deviation. "
      "Every survey feeds it the values of the selected observations' own columns and its own survey settings (explicit argument over stored metadata over class default). "
      "Derived zero points follow the documented formula from the same row's filter, airmass, exposure or limiting magnitude.",
      ["inputs", "configurations"], "all fluxes, all observation rows, all combinations of survey settings, all supported surveys",
      "Tests check limiting regimes in which one term dominates and default settings, so a wrong scaling of another term, a swapped column or an ignored setting passes.",
      ["astro_utils/noise_model.py", "astro_utils/zeropoint.py", "obstable/opsim.py", "obstable/ztf_obstable.py", "obstable/fake_obs_table.py", "obstable/roman_obstable.py", "obstable/obs_table.py"],
      [("poisson_bandflux_std, apply_noise", "astro_utils/noise_model.py"), ("bandflux_error_point_source", "obstable/opsim.py"), ("_assign_zero_points", "obstable/ztf_obstable.py")],
      "value numbering of the noise pipeline compared with documented formulas in a polynomial normal form"),
    P("C15", "Unit, magnitude, redshift and distance conversions are exact",
      "AB magnitudes and nJy fluxes convert by f = 10**(-0.4*(m-31.4)) and its exact inverse. Observer-frame times and wavelengths convert to the rest frame by (t-t0)/(1+z)+t0 and w/(1+z), fluxes back by *(1+z). "
      "f_lambda and f_nu convert by lambda**2/c in the units the caller names, wavelengths applied along the last axis. Luminosity distances come from the given cosmology, in pc.",
      ["inputs"], "all finite values, arrays and units", "Tests compare a few magnitudes, redshifts and units; a different formula can agree on those.",
      ["astro_utils/mag_flux.py", "astro_utils/redshift.py", "astro_utils/unit_utils.py"],
      [("mag2flux, flux2mag", "astro_utils/mag_flux.py"), ("obs_to_rest_times_waves", "astro_utils/redshift.py"), ("flam_to_fnu", "astro_utils/unit_utils.py")],
      "value numbering of the conversion helpers compared with reference formulas in a polynomial normal form"),
    P("C19", "Data files and result tables hold each entry where it belongs",
      "A numpy array is written to and read from a file in the format of its suffix, the same suffixes in both directions; unknown suffixes and missing files are rejected. "
      "Grid data are the sorted distinct coordinates and the matrix of values in the order of the file's rows; a wrong number of columns or rows is rejected, and so is a wrong order when validation is asked for. "
      "Every event of a LCLIB file becomes one table with its own rows under the file's filter columns, its own parameter values and id. "
      "Augmenting results gives each observation its own signal-to-noise ratio (flux over error), a detection flag (ratio at least the minimum), AB magnitude and its error (2.5/ln(10) * error/flux), masked where flux or error is not positive, and the time since the t0 of its own object. "
      "A file is downloaded from its URL to its path exactly when it is missing or a download is forced.",
      ["inputs", "configurations"], "all arrays, suffixes, row orders, light curves, indices and existing files; the file libraries are trusted to write and read what they are given",
      "Tests use one small file of each kind and light curves with the default index; another suffix, row order, invalid flux, t0, index or a file with several events is not sampled.",
      ["utils/io_utils.py", "utils/post_process_results.py", "utils/data_download.py"],
      [("read_numpy_data, write_numpy_data, read_grid_data, read_lclib_data", "utils/io_utils.py"), ("augment_single_lightcurve, results_augment_lightcurves", "utils/post_process_results.py"), ("download_data_file_if_needed", "utils/data_download.py")],
      "abstract interpretation of the readers, writers, downloader and table post-processing compared with reference semantics (data, stored columns, calls, rejected inputs)"),
    P("C20", "Models and effects compute their documented physics from their parameters",
      "Each source model evaluates its documented light curve or spectrum (constant, step, sine, linear, periodic, eclipsing binary, Gaussian galaxy, spline, static SED, SALT2, BayeSN, sncosmo, redback, AGN disk and variability) from the sampled values of its own parameters; "
      "each derived parameter (distances, Tripp x0, stretch distribution, rates, host separation, AGN quantities, dust values) follows its documented relation; each constructor argument sets the parameter of that name; "
      "effects dim, redden, magnify or perturb by exactly the documented factor.",
      ["inputs", "configurations"], "all parameter values, times and wavelengths; each shipped model, derived-parameter node and effect with a closed form",
      "Tests evaluate a few points per model; a wrong coefficient, a boundary, a swapped parameter or a branch can agree on those.",
      ["models/agn.py", "models/basic_models.py", "models/periodic_variable_star.py", "models/static_sed_model.py", "models/salt2_jax.py", "models/sncomso_models.py", "models/spline_model.py", "models/bayesn.py", "models/redback_models.py",
       "astro_utils/snia_utils.py", "astro_utils/salt2_color_law.py", "utils/bicubic_interp.py", "astro_utils/dustmap.py", "effects/extinction.py", "effects/microlensing.py"],
      [("compute_sed of each model", "models/basic_models.py"), ("_circle_overlap_area", "models/periodic_variable_star.py"), ("AGN derived parameters", "models/agn.py"), ("SALT2ColorLaw", "astro_utils/salt2_color_law.py")],
      "value numbering of model formulas compared with reference formulas region by region in a polynomial normal form"),
    P("C24", "Sampler and math nodes draw the documented values, one per sample",
      "A random node draws its documented distribution with the given generator or else its own, once for all samples or with each sample's own parameters, and stores exactly what it returns. "
      "Given lists and tables are used in order from the current position (never past the end) or drawn with their normalised weights, all columns of a table from one row; binary and user-supplied PDF nodes use the documented probability and inverse CDF. "
      "Sky positions are uniform on the sphere (RA uniform, sine of the declination uniform), within the radius of a pointing (area-uniform offsets), inside the survey's footprint or inside the coverage map, in the documented unit. "
      "An expression node evaluates only the allowed functions and named variables, with the functions of its own backend; anything else is rejected before evaluation. Wrong weights, empty lists, missing columns and bad settings are rejected.",
      ["inputs", "configurations"], "all given values, tables, weights, radii, sample counts, generators and expressions; entries of arrays, not their shapes or dtypes; the libraries' generators are trusted to draw what they are asked",
      "Tests look at moments of a few draws with wide tolerances and at one or two expressions; a wrong argument, a reused position, a swapped coordinate or another backend's function passes.",
      ["math_nodes/given_sampler.py", "math_nodes/np_random.py", "math_nodes/ra_dec_sampler.py", "math_nodes/scipy_random.py", "math_nodes/distribution_sampler.py", "math_nodes/basic_math_node.py", "math_nodes/bilby_priors.py", "astro_utils/pzflow_node.py"],
      [("GivenValueList, TableSampler.compute", "math_nodes/given_sampler.py"), ("UniformRADEC.compute, ObsTableRADECSampler.compute", "math_nodes/ra_dec_sampler.py"), ("BasicMathNode._prepare", "math_nodes/basic_math_node.py")],
      "abstract interpretation of the sampler and math nodes compared with reference semantics (draws with arguments, stored values, positions, rejected inputs) and a check of the expression tables"),
]

NA = []
