"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe or [], "hook_needed": None}})


DC = "gwinferno/preprocess/data_collection.py"
SEL = "gwinferno/preprocess/selection.py"
PR = "gwinferno/preprocess/priors.py"
UT = "gwinferno/pipeline/utils.py"
AN = "gwinferno/pipeline/analysis.py"
PA = "gwinferno/pipeline/parser.py"
CO = "gwinferno/cosmology.py"
IN = "gwinferno/interpolation.py"
CV = "gwinferno/preprocess/conversions.py"
CA = "gwinferno/postprocess/calculations.py"
PL = "gwinferno/postprocess/plot.py"
MO = ["gwinferno/models/bsplines/single.py", "gwinferno/models/bsplines/separable.py", "gwinferno/models/spline_perturbation.py", "gwinferno/models/parametric/parametric.py"]

prop("C01", "Loading a catalogue is exact or raises, under I/O faults and any history",
     "Loading posterior samples for a list of events either raises or returns, for every event, the same number of distinct samples of that event's own file that pass the mass limit, "
     "with all requested parameters of one sample staying together, converted as documented, and with the prior density that belongs to that event's declared distance prior and to the requested parameters. "
     "Read errors, short reads, truncated or missing files, interrupts, the order of events, the state of the random generator and earlier loads in the process never change any returned value other than which of the eligible samples are kept.",
     ["fault_sequences", "histories", "inputs", "configurations"],
     "every set of event files (GWTC-1 style and later), mass limit, parameter subset, read-fault sequence, interrupt point and sequence of earlier loads",
     "The tests only evaluate the distance prior on one grid; none loads an event file, and none injects a fault or looks at a second load.",
     [DC, CO, CV, PR], [("per-event read, mass cut, random downsampling to a common length", DC), ("prior density per event", DC), ("effective-spin conversion", DC)],
     ["load_posterior_dataset", "append_prior_to_processed_catalog"])

prop("C02", "Loading injections is exact or raises, under I/O faults and any history",
     "Loading a found-injection file (through O3 or through O4a) either raises or returns exactly the injections that pass the requested thresholds, in file order and row-aligned, with the documented derived quantities and sampling density for the requested parameters, and with the file's total number of draws and its analysis time in years. "
     "Read errors, short reads, truncation, missing metadata, interrupts and earlier loads in the process never make it return anything else.",
     ["fault_sequences", "histories", "inputs", "configurations"],
     "every injection file content, threshold setting, extra cut, parameter subset, read-fault sequence, interrupt point and sequence of earlier loads",
     "No test reads an injection file; a wrong row, density or constant biases every inference silently.",
     [SEL, DC, PR, CV], [("threshold masks and derived densities", SEL), ("effective-spin conversion and parameter selection", DC)], ["load_injection_dataset"])

prop("C03", "A load returns exactly what was last saved, over every save/load history",
     "After any history of saves, overwrites, failed, interrupted or crashed saves and retries on data files, a load returns exactly the events, parameters, samples, injections, number of draws and observing time of the last save that succeeded (or of a failed save that took effect completely), minus exactly the events the caller asked to ignore, and the reported number of observations equals the number of events returned. "
     "A save that returns normally has stored everything; a load hit by a read error raises instead of returning altered data.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of save / load / ignore-list operations over several files with disk errors, short transfers, full disks, interrupts and process deaths at any operation",
     "The round-trip through the file is not tested at all; the data file of the only tests near it is not loadable here.",
     [DC, UT], [("write, verify, replace", DC), ("snapshot read, selection of events, constants", UT)],
     ["save_posterior_samples_and_injection_datasets_as_idata", "load_pe_and_injections_as_dict"])

prop("C04", "Saving a data file is atomic: crashes and overlaps leave one whole version",
     "Whatever the moment at which the saving process is killed, interrupted, loses power or runs out of disk space, the path afterwards holds either the complete previous data or the complete new data and can be saved to again; if nothing was saved there before, it holds the complete new data or nothing. "
     "A load overlapping one or more saves returns entirely one version, and overlapping saves leave one of the versions whole.",
     ["crash_points", "schedules", "fault_sequences"],
     "every prefix of the file operations of a save (with torn and reordered unsynced writes), every interleaving of a save with another save or load, every disk-fault sequence",
     "Tests never crash a save; the window between truncating and finishing the file is invisible to them.",
     [DC, UT], [("temporary file, fsync, verification, rename", DC), ("single-snapshot read", UT)],
     ["save_posterior_samples_and_injection_datasets_as_idata", "load_pe_and_injections_as_dict"])

prop("C05", "Cosmology answers do not depend on history, threads or interruptions",
     "At the default step, every distance, volume-element and inverse-distance answer of a cosmology equals the flat-LambdaCDM value to the accuracy of its integration grid for every finite non-negative input, inside or beyond the range tabulated so far. "
     "It is the same whatever was asked before, from whichever threads and in whatever interleaving, and after any earlier call was interrupted, failed or was aborted.",
     ["schedules", "histories", "inputs"],
     "every sequence and interleaving of queries and table extensions on shared and private cosmologies, with an interrupt or failed allocation at any point",
     "The tests compare one-shot answers on fresh objects inside the initial table; growth, sharing and interruption of the table are never exercised.",
     [CO], [("table published in one assignment, local snapshot per query", CO), ("extension on demand", CO)],
     ["z2Dc", "z2DL", "dVcdz", "logdVcdz", "DL2z"])

prop("C06", "A config-built model evaluates to the hierarchical likelihood of its config",
     "For every valid configuration of population models (single, mixture, shared between parameters) and priors, evaluating the model built from it at given hyper-parameters yields the log joint density of the configured priors plus the documented hierarchical log-likelihood of the PE samples and injections, and records the documented derived quantities. "
     "The value depends only on the configuration, hyper-parameters and data passed to that evaluation, not on evaluations that came before, were interrupted or failed, nor on other models built in the process.",
     ["histories", "configurations", "inputs"],
     "every configuration, every sequence of evaluations of several models with different hyper-parameters and data sets, interrupted at any point",
     "No test builds a model from a configuration; the inference tests need a data file that is not loadable here.",
     [AN, PA, "gwinferno/numpyro_distributions.py"], [("hyper-parameter and model tables rebuilt per evaluation", AN), ("hierarchical_likelihood", AN)],
     ["construct_hierarchical_model", "hierarchical_likelihood"])

prop("C07", "A model file always yields the model that file defines now",
     "Loading a model from a Python file returns the object that the file's present content defines under the expected name, and raises if the file is missing, unreadable or fails to execute. "
     "Earlier loads of other files with the same base name, of modules with that name, of older versions of the same file, failed or interrupted loads, changes of the working directory and read faults never change which model is returned.",
     ["histories", "fault_sequences"],
     "every history of writing, editing, deleting, breaking and loading model files in several directories under equal and different names",
     "Not tested; import caching only shows over histories with name reuse.",
     [PA], [("executes the named file itself", PA)], ["load_model_from_python_file"])

prop("C08", "No public operation modifies data the caller passed in",
     "Arrays, dictionaries, lists, datasets and keyword arguments handed to any public function or model are left exactly as they were, whether the call returns, raises or is interrupted at any point. "
     "Default arguments are likewise never altered, so that repeating a call with the same inputs gives the same result.",
     ["inputs", "histories", "fault_sequences"],
     "every public operation over numpy-backed inputs, interrupted or failed at any point, repeated and reordered",
     "Tests pass freshly built jax arrays once and never look at their inputs afterwards.",
     [CV, IN, UT, DC, SEL, AN, PA, CA, PL] + MO, [("pure computations on copies", "all modules")], [])

prop("C09", "Random selection only ever yields genuine rows with the documented weights",
     "Every random selection the package makes (re-sampled injections, posterior-predictive observed and predicted draws) returns rows that exist in its input with all parameters of a row kept together, chosen in proportion to the documented weights so that zero-weight rows never appear, and with the documented bookkeeping (number of draws, new density, effective sample size); draws for different events, and the observed and predicted draw of one event, are independent. "
     "This holds for every random key or seed, including extreme draws, and does not depend on earlier selections.",
     ["inputs", "histories"],
     "every random key, weight vector (including zero, concentrated and widely scaled weights), cut setting and data layout",
     "No test draws anything; only a simulator that owns the random source can drive it to its extremes and compare empirical to exact weights.",
     [SEL, AN], [("weighted choice of column indices", SEL), ("posterior predictive draws", AN)], ["resample_injections", "hierarchical_likelihood"])

prop("C10", "The conditional effective-precession prior is sound for every random stream",
     "For physical inputs, the Monte-Carlo prior on effective precession given effective spin and mass ratio terminates once the random source yields physical spins, is non-negative, zero outside the physically allowed range, integrates to one, and uses only component spins that reproduce the conditioned effective spin with physical tilts. "
     "It is correct within Monte-Carlo error for every random stream, including streams that repeatedly produce unphysical or extreme spins, and the joint prior is its product with the effective-spin prior, point by point for arrays as for single values, also where the cases of the closed form meet.",
     ["inputs", "fault_sequences"],
     "every random stream delivered to the sampler (including adversarial runs of rejected draws and boundary values), mass ratio, effective spin, maximum spin and number of draws",
     "The test compares one seed-dependent value loosely; rejection loops and boundary draws are never forced.",
     [PR], [("redraw loop until tilts are physical", PR), ("weighted density estimate on the allowed range", PR)],
     ["chi_p_prior_given_chi_eff_q", "joint_prior_from_isotropic_spins"])

prop("C11", "Same seed and files give the same results across processes and restarts",
     "With the same input files, arguments and random seed or key, the whole chain from loading catalogues and injections through saving, loading and building models to drawing and summarising gives bit-identical results in every process. "
     "Hash randomisation, the working directory, directory listing order, wall-clock time, process identity, restarts between stages and retries after transient faults do not influence it.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "every pair of runs of the pipeline that differ in hash seed, clock, working directory, process identity, restart points and transient faults that were retried",
     "A test runs in one process with one hash seed and cannot compare two executions.",
     [DC, SEL, UT, PA, AN, CA], [("explicit keys and a single legacy global generator", "all stages")], [])

prop("C12", "Evaluating a population model is a pure read of the model",
     "A spline or parametric population model gives, for given coefficients and hyper-parameters and for the samples it was built with, the same documented density every time: evaluations of parameter-estimation and injection samples do not influence each other, and neither do earlier, concurrent, interrupted, failed or compiled evaluations or other models. "
     "Samples outside a spline model's range have zero density (or the documented value) while every sample inside gets the density of its own position.",
     ["schedules", "histories", "inputs"],
     "every sequence and interleaving of evaluations on shared model objects from several threads, under jit and vmap, interrupted at any point",
     "The model tests check normalisation on one call (and mostly need a data file that is not loadable here); none repeats, interleaves or aborts evaluations.",
     [IN] + MO, [("design matrices computed once at construction and never written again", MO[0]), ("pure projection", IN)], [])

prop("C13", "Exported results are complete, labelled right, and survive failed writes",
     "Exporting posterior samples and population curves produces a dataset holding exactly every array given, under its own name, with its draws, grids and subpopulations labelled correctly, so that writing it to disk and reading it back returns the same numbers. "
     "A failed, interrupted or repeated export or plot leaves the caller's results intact, so that a retry produces the same complete output, and saved figures show the curves that were passed.",
     ["histories", "fault_sequences", "inputs"],
     "every set of result arrays, subpopulation names and shapes, every sequence of exports and plots with disk errors and interrupts in between",
     "No test exports or plots results.",
     [UT, CA, PL], [("dictionary to dataset conversion", UT), ("per-draw curve calculation", CA), ("figure files", PL)], ["posterior_dict_to_xarray", "pdf_dict_to_xarray"])

prop("C14", "Reading a configuration is exact, complete and isolated from earlier reads",
     "Parsing a configuration file yields exactly the models, shared-parameter relations, mixture components, priors, fixed values and sampled-parameter list that the file states, with defaults only for what it omits, and raises for files that are missing, unreadable, truncated or name unknown models. "
     "The result depends only on the present content of that file: not on previously parsed files, failed or interrupted parses, other readers in the process, or read faults.",
     ["histories", "fault_sequences", "configurations"],
     "every configuration and every history of parses with one or several readers, with read faults, edits and interrupts in between",
     "The configuration reader has no test.",
     [PA], [("per-parse state", PA)], ["ConfigReader"])

prop("C15", "Densities, cumulative functions and draws agree for every random stream",
     "For each distribution the package provides with random draws (Sine, Cosine, Powerlaw, PowerlawRedshift, BSplineDistribution) and any admissible parameters, the density integrates to one over the distribution's range, the cumulative function is the integral of that density, the quantile function is its inverse, and draws follow it. "
     "For every random key and every stream of uniform numbers, including the extreme ones, every draw is finite and inside the range; the same key always gives the same draws, whatever was built, drawn, compiled, interrupted or failed before.",
     ["inputs", "histories", "schedules"],
     "every parameter setting, sample shape, random key and uniform stream, and every sequence and interleaving of uses of several live distributions",
     "The tests integrate one density per distribution and look at 100 draws of one key; they never compare draws or cumulative functions with the density.",
     ["gwinferno/numpyro_distributions.py", "gwinferno/models/bsplines/smoothing.py"], [("inverse-transform sampling", "gwinferno/numpyro_distributions.py"), ("cumulative function tabulated at construction", "gwinferno/numpyro_distributions.py")],
     ["sample", "log_prob", "cdf", "icdf"])

prop("C16", "A spline analysis built from the helpers evaluates to its documented posterior",
     "An analysis put together from the package's own pieces - data loaded from a file, spline mass, spin (identical or independent components) and redshift models set up on it, the spline priors with their smoothing penalties, and the hierarchical likelihood - has, at every set of coefficients, the log joint density and the derived quantities (rate, detection efficiency, log Bayes factors, effective sample sizes, surveyed hypervolume) documented for those settings and that data. "
     "This holds for every state the sampler visits and does not depend on other analyses or data sets in the process, on earlier failed, interrupted or compiled evaluations, on failed loads, or on the order in which models were set up.",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "every data file, number of splines, prior widths, smoothing strengths and degrees, subpopulation names and likelihood options, and every sequence of loads, set-ups and evaluations of several analyses with faults in between",
     "No test assembles an analysis from the helpers; the examples that do are not run.",
     [UT, AN] + MO + [IN], [("set-up helpers and spline priors", UT), ("hierarchical likelihood", AN)], ["setup_bspline_mass_models", "bspline_mass_prior", "hierarchical_likelihood"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
