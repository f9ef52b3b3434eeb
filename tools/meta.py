#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, note, level="other", state=None, observe=None, claimed=True):
    an = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        an["state"] = [{"name": n, "meaning": m} for n, m in state]
    an["observe_at"] = observe or []
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=an),
              note, level, claimed))


F = "src/functions.c"
LOCAL3 = [("local x local integrand", F + ": functions_nonintegrated"),
          ("local x integrated and integrated x integrated integrands", F + ": functions_single_integrated, functions_double_integrated")]

prop("S01", "Exchanging the two galaxy populations leaves the signal unchanged",
     "The two-point integrands are unchanged when the two galaxy populations (bias, magnification bias, evolution bias and the derived Doppler prefactors) "
     "are exchanged together with the orientation of the pair and the two line-of-sight integration variables. This holds for every selection of contributions, in full sky and with every plane-parallel option.",
     ["inputs", "configurations"], "all redshifts, separations, angles, bias functions, backgrounds, power spectra and contribution selections",
     "the tests use a single set of bias functions shared by both populations at a few separations, where a swapped index is invisible",
     [F], LOCAL3,
     "Real arithmetic; single and paired contribution selections (sums follow from S02); generic separations; splines uninterpreted, so every bias and background is covered.",
     observe=["compute_corrfunc / compute_multipoles with different populations"])

prop("S02", "The signal is the sum of its selected contributions",
     "For every selection of contributions, the two-point integrands equal the sum of the single-contribution results plus one cross term per selected pair, independent of whatever else is selected. "
     "With the cross-correlations-only option exactly the single-contribution (auto) results are removed.",
     ["configurations", "inputs"], "all 1024 selections x cross-only on/off x plane-parallel settings, all term values",
     "the tests run single contributions and one 'all' selection; 1024 selections times options cannot be enumerated by running the integrator",
     [F], LOCAL3, "All selections symbolic in one query per integrand and plane-parallel setting; terms are opaque reals.",
     observe=["compute_* with has_* switches"])

prop("S03", "Local contributions equal linear theory",
     "For every pair of local contributions (density, redshift-space distortions, both Doppler terms, the three local potential terms) the full-sky integrand equals "
     "the correlator obtained by applying the corresponding differential operators of linear theory to the power spectrum, for arbitrary bias functions, background and power spectrum.",
     ["inputs", "configurations"], "all redshifts, separations, angles 0<mu<0.999, biases of two distinct populations, backgrounds, power spectra",
     "the tests compare a few numbers with stored benchmarks at 0.5% for one cosmology and identical populations; small or switched-off terms are never seen",
     [F], LOCAL3[:1], "Exact identity over the reals against an independently derived operator formula; positive separation; bounded to one pair at a time (sums: S02).")

prop("S04", "Integrated contributions (lensing, time delay, ISW) equal linear theory",
     "For every pair involving lensing, time-delay or integrated Sachs-Wolfe contributions the full-sky line-of-sight integrand equals the linear-theory correlator of the corresponding sources, "
     "for arbitrary bias functions, background and power spectrum; this includes the separate treatment of aligned lines of sight.",
     ["inputs", "configurations"], "all redshifts, separations, angles 0<mu<0.999 and mu=1, line-of-sight fractions, two distinct populations, backgrounds, power spectra",
     "one benchmark cosmology with equal populations; several pairs are orders of magnitude below the tested total",
     [F], LOCAL3[1:], "Exact identity over the reals; distinct source positions; 0.999 <= mu < 1 (documented approximation) outside.")

prop("S05", "Plane-parallel options give the plane-parallel limit of linear theory",
     "With the plane-parallel options on, density, redshift-space-distortion and Doppler pairs equal linear theory with one common line of sight and all functions at the mean redshift; density-lensing (orientation-averaged) and lensing-lensing equal their Limber forms, "
     "and redshift-space-distortion or Doppler with lensing vanish. The dedicated plane-parallel lensing multipoles are the Legendre components of the plane-parallel correlations.",
     ["inputs", "configurations"], "all mean redshifts, angles, separations, biases, backgrounds, power spectra; even multipoles up to 6 (quick) or 10",
     "plane-parallel lensing is never tested; the multipole formula must agree with the correlation for every power spectrum",
     [F, "src/signal.c"], [("plane-parallel branches", F), ("plane-parallel lensing multipoles", F + ": functions_flatsky_*_multipoles")],
     "Exact identity; multipoles as power series in k r to order 16 per Fourier mode.")

prop("S06", "Coinciding positions give the limit of neighbouring configurations",
     "When two correlated source positions coincide (zero separation, or aligned lines of sight meeting at the same depth) the value returned for every contribution pair is the limit of the values at neighbouring separations.",
     ["inputs"], "all redshifts, biases, backgrounds, power spectra, 55 contribution pairs, all ways of coinciding",
     "the special-cased branches are hit at isolated inputs only and tests with tolerances on integrals cannot see them",
     [F], LOCAL3, "Exact limits from the small-separation expansion of the power-spectrum integrals.")

SIG = "src/signal.c"
prop("A01", "Results count every selected contribution exactly once",
     "The correlation function and its multipoles equal the sum over all selected contribution pairs of the pair's integrand integrated over the lines of sight and (for multipoles) projected with (2l+1)/2 times the Legendre polynomial over -1<=mu<=1. "
     "No selected pair is dropped or counted twice, whatever else is selected, for every combination of the cross-only and plane-parallel options and either quadrature; plane-parallel lensing multipoles enter through their dedicated formulas with weight 2 pi^2.",
     ["inputs", "configurations"], "1024 selections x cross-only x three plane-parallel options x quadrature types; multipoles up to 5 (quick) or 10",
     "the dispatch has long hand-written lists of pairs per output type; tests run single contributions or everything",
     [SIG], [("dispatch by selection and output type", SIG + ": coffe_integrate"), ("integrands with Legendre weights", SIG)],
     "Pair terms opaque (their sum structure is S02); quadrature exact; l bounded.", observe=["compute_corrfunc, compute_multipoles"])
prop("A02", "Result grids cover the requested coordinates and label values correctly",
     "The arrays of correlation functions, multipoles and redshift-averaged multipoles contain every requested combination of redshift (bin), angle or multipole, and separation exactly once, in the order redshift, angle or multipole, separation; "
     "each value is the sum of the three parts (non-, single- and double-integrated) evaluated at the entry's own coordinates and output type.",
     ["inputs", "configurations"], "all coordinate values; grid shapes up to 3x3x2 (quick) or 6x5x9 (thorough)",
     "tests compare a few entries of one shape; an index slip shows only for particular shapes or coordinates",
     ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c"], [("grid construction and three accumulation loops", "coffe_corrfunc_init, coffe_multipoles_init, coffe_average_multipoles_init")],
     "Symbolic coordinate values, concrete shapes.", observe=["result objects and output files"])
prop("A03", "Redshift-averaged multipoles are the weighted average of the multipoles over the bin",
     "Each redshift-averaged multipole equals (2l+1)/2 times the integral over mu of the Legendre polynomial times the selected contributions, averaged uniformly over the redshifts whose pair of given separation fits inside the bin "
     "[z(chi(zmin)+s/2), z(chi(zmax)-s/2)] with weight H0/((1+z) conformal H(z)); every selected pair counts once.",
     ["inputs", "configurations"], "all bins, separations, backgrounds, selections and options; multipoles up to 4 (quick) or 10",
     "averaged multipoles with lensing or several contributions are not tested at all",
     [SIG], [("averaged integrands", SIG + ": average_multipoles_*_integrand"), ("dispatch", SIG + ": coffe_integrate")],
     "Pair terms opaque (S02); quadrature exact; l bounded.", observe=["compute_average_multipoles"])

BG = "src/background.c"
prop("B01", "Background functions satisfy the Friedmann and linear-growth equations",
     "Every tabulated background function equals its definition at every tabulated redshift, for arbitrary cosmological parameters, equation of state w0 + wa z/(1+z) and bias functions: scale factor, H(z) with matter, radiation and dark energy, conformal H and its conformal-time derivative, "
     "comoving distance, linear growth (normalised to 1 today) and growth rate from the growth equation, the Doppler prefactors G1 and G2 each from its own population's magnification and evolution bias, and redshift as the inverse of comoving distance.",
     ["inputs", "configurations"], "all cosmological parameters with Omega_m < 1, all bias functions, both quadratures; table sizes 3 and 4 (quick), 2 to 7 (thorough)",
     "tests use one cosmology without radiation, with w = -1 and equal populations",
     [BG, "src/common.c"], [("tables of w and its integrals, growth ODE, pointwise formulas", BG + ": coffe_background_init")],
     "Reals; GSL quadrature, ODE stepping and interpolation are modelled as exact integral, exact flow and interpolation of the nodes.", observe=["comoving_distance, hubble_rate, growth_factor, ... and every signal"])

PYX = "python/coffe/coffe.pyx"
REP = "python/coffe/representation.py"
CLI = "python/coffe/__main__.py"
PYNOTE = ("The converted source of coffe.pyx runs on symbolic numbers from an arbitrary state of the object (every setting any value, any computed products cached); C functions it calls are reduced to what they read, "
          "write, allocate and free, taken from their LLVM IR; CLASS is absent from this build.")

prop("Y01", "No computed result outlives a change of what it was computed from",
     "After any sequence of assignments, set_* calls and queries on a Coffe object, every result still cached in it (background, power spectra, integrals, correlation functions, multipoles, covariances) "
     "was computed from the settings, biases, background, power spectrum and integrals the object holds now, or is recomputed before it is returned; assigning a setting or calling a query never leaves an older result behind to be returned. "
     "Reading settings changes nothing. Settings that do not enter the power spectrum keep the one supplied with set_power_spectrum_linear.",
     ["histories", "inputs", "configurations"], "every assignment or query as one step from an arbitrary state satisfying the invariant (so every history of them), any values",
     "a stale result needs a particular order of computing, changing and computing again; there are more than 70 settings times a dozen products and tests construct a fresh object each time",
     [PYX, "src/background.c", "src/integrals.c", "src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c"],
     [("setters and the frees they call", PYX + ": property setters, _free_*"), ("computed-or-cached guards", PYX + ": _background_init, _integrals_init, compute_*_bulk"), ("what each product reads", "coffe_*_init")],
     PYNOTE + " The recompute=True option of the queries is outside.", state=[("flag / size / allocated pointers of each C product", "which results are cached")],
     observe=["compute_corrfunc_bulk, compute_multipoles_bulk, ... after changing settings"])
prop("Y02", "Settings read back as assigned and change nothing else",
     "Every setting of a Coffe object can be assigned; afterwards it reads back as the assigned value and every other setting is unchanged, except where the density budget ties them: omega_m = omega_cdm + omega_baryon + massive neutrinos stays exact, "
     "and changing one of them (or h or m_ncdm) leaves total density relations consistent. Sampled functions (biases, power spectrum, equation-of-state) are interpolated through the given points.",
     ["inputs", "histories"], "all values of all settings from any state; lists of 0 to 4 entries; sampled functions of 5 and 6 points",
     "tests assign a handful of settings, one value each, and look only at the one they assigned",
     [PYX], [("property setters and getters", PYX)], PYNOTE, observe=["Coffe attributes, parameters"])
prop("Y03", "Unacceptable values are rejected and change nothing",
     "Assigning a value that is out of range, of the wrong type, or otherwise unusable to any setting raises TypeError, ValueError or OverflowError and leaves every setting as it was; no assigned value, however malformed, ends or crashes the process.",
     ["inputs", "faults"], "all settings, numbers of any value, text, None, lists of 0 to 4 entries with non-numbers among them, sampled functions of 0 to 6 points with mismatched lengths and any abscissae",
     "tests try a few wrong values per setting and never check that the object is left untouched",
     [PYX], [("input checks in the property setters", PYX + ": _check_parameter, setters, set_*")], PYNOTE, observe=["exceptions raised by assignments"])
prop("Y04", "Settings survive writing to a file and reading back",
     "For any settings a Coffe object can hold, from_file(to_file) yields an object whose every setting, including lists, flags, densities and sampled bias functions, equals the original's.",
     ["inputs", "configurations"], "each setting at any accepted value (lists of 0 to 4 entries, sampled biases of 5 and 6 points), all densities, h and the neutrino mass at once",
     "tests write default settings at most; a key that is skipped or reordered only shows for non-default values",
     [PYX], [("settings file", PYX + ": to_file, from_file")], PYNOTE + " The text formatting of configparser and numpy is taken as exact.", observe=["Coffe.from_file"])
prop("Y05", "Result objects and output columns carry the right values",
     "The results of compute_corrfunc_bulk, compute_multipoles_bulk, compute_average_multipoles_bulk, compute_covariance_bulk and compute_average_covariance_bulk hold, in the order of the C arrays, exactly the coordinates and values computed; "
     "each column written by the command line for every output kind holds the quantity its header names.",
     ["inputs", "configurations"], "arrays of 3 results with arbitrary coordinates and values, freshly computed or cached, arbitrary settings; every output kind",
     "tests check values of one field of one result kind; swapped coordinates of equal value are invisible there",
     [PYX, REP, CLI], [("construction of result objects", PYX + ": compute_*_bulk"), ("result classes", REP), ("columns", CLI + ": compute_output")], PYNOTE, observe=["result objects, files of the command line"])
prop("Y07", "Point queries return the named quantity at the given point",
     "Every point query (comoving distance, Hubble rates, growth, scale factor, biases, power spectrum, cross spectrum, integrals, maximum separation, compute_corrfunc, compute_multipole) returns the named function, in the documented units, at exactly the arguments given, computed from the current settings; "
     "arguments outside the tabulated range raise ValueError.",
     ["inputs", "configurations"], "all arguments, any state of the object",
     "tests evaluate a few queries at one or two points of one cosmology, with equal populations",
     [PYX], [("point queries", PYX)], PYNOTE + " Interpolants and the line-of-sight integrator are uninterpreted.", observe=["query methods of Coffe"])

COV = "src/covariance.c"
CN = "Exact over the reals; quadrature and the 2D FFTLog transform uninterpreted; power spectrum not from CLASS (absent from this build)."
prop("C01", "Covariance matrices are complete, labelled and symmetric",
     "The covariance of the multipoles, and of the redshift-averaged multipoles, has exactly one entry per redshift bin and pair of (multipole, separation), in the order (bin, l1, separation 1, l2, separation 2), labelled with these coordinates; "
     "exchanging the two (multipole, separation) pairs leaves the value unchanged.",
     ["inputs", "configurations"], "all coordinates, settings, spectra, backgrounds and biases; several shapes up to 4 multipoles, 3 separations, 3 bins (quick) or 6, 5, 4; odd multipoles; both integration methods, binned or not",
     "tests compare the even multipoles of one shape with one bin; transposed storage is invisible when only l1 <= l2 or equal separations are compared",
     [COV], [("storage and transposition of the integrals, labels", COV + ": coffe_covariance_init")], CN, observe=["compute_covariance_bulk, compute_average_covariance_bulk"])
prop("C02", "Covariance equals the Gaussian covariance of the multipoles",
     "Every entry equals the flat-sky Gaussian covariance of density and redshift-space distortions: cosmic variance (P13 P24 + (-1)^l2 P14 P23), cosmic variance times shot noise, and shot noise of the selected populations, "
     "each with its own bias, number densities, growth and growth rate at the bin's (mean) redshift, sky fraction, separation bin width and volume of that bin; "
     "with spherical Bessel functions averaged over the separation bin when that option is on (multipoles up to 6), by quadrature or by 2D FFTLog; odd multipoles carry the parity of the pair.",
     ["inputs", "configurations"], "all values of every setting, spectrum, background and bias; 8 (quick) or all 256 population assignments; multipoles 0-6 (quick) or 0-9; up to 3 bins",
     "tests use one bin, identical populations and a tolerance on the total of three terms",
     [COV, "src/common.c"], [("the three terms and their coefficients", COV + ": coffe_covariance_init, covariance_coefficient"), ("integrals of the power spectrum", COV + ": covariance_integral, covariance_windowed_bessel, covariance_integrate_fftlog")], CN,
     observe=["compute_covariance_bulk, compute_average_covariance_bulk"])
prop("C03", "Covariance terms and contributions switch independently",
     "Each of the three covariance terms (cosmic, mixed, shot noise) adds exactly its own Gaussian term when selected and nothing when not, for all eight selections; density sets the bias part and redshift-space distortions the growth part of the spectra, for all four selections of these contributions.",
     ["configurations", "inputs"], "8 selections of terms, 4 of contributions, every output, integration method and binning option, all values",
     "tests use all three terms with both contributions",
     [COV], [("selection of terms", COV + ": coffe_covariance_init")], CN, observe=["compute_covariance_bulk with covariance_cosmic, _mixed, _poisson"])
INT = "src/integrals.c"
IN = "Exact over the reals; GSL interpolation, quadrature, Bessel and gamma functions uninterpreted (the FFTLog transform itself is N03)."
prop("I01", "Every integral an output evaluates has been tabulated",
     "For every selection of contributions (with or without cross-correlations only), each of the two plane-parallel options on or off and each signal output, every integral of the power spectrum (and every renormalization of the divergent one) that evaluating the output looks up has been tabulated beforehand, "
     "so no evaluation uses a missing table: also multipoles up to 9 which are not in the list of multipoles. The renormalization table reaches every comoving distance at which the configured outputs evaluate it.",
     ["inputs", "configurations"], "all 1024 selections of contributions (symbolic), the options that select integrals, the three signal outputs, multipoles 0-9 with the list [0, 2]; symbolic coordinates",
     "tests select a handful of contributions; a missing table shows up (as a crash) only for the one combination that needs it",
     [INT, "src/functions.c", "src/signal.c"], [("tables that are computed", INT + ": coffe_integrals_init"), ("tables that are used", "src/functions.c, src/signal.c: coffe_find_integral calls")], IN,
     observe=["compute_corrfunc, compute_multipole, compute_average_multipoles_bulk with any contributions"])
prop("I02", "Tabulated integrals are the integrals of the power spectrum they name",
     "Every table I(n,l) holds, at every tabulated separation r, the integral over k from k_min to k_max of k^2 P(k) j_l(kr)/(kr)^n / (2 pi^2) (times r^(n-l) where n >= l): the FFTLog transform with exactly these indices at separations from 1 on, direct quadrature below, with the limit at zero separation; "
     "I(4,0) holds the integral of P(k) j_0(kr)/k^2 / (2 pi^2), its renormalization the integral of P(k) j_0(k chi1) j_0(k chi2)/k^2 / (2 pi^2) for every pair of tabulated distances and that of P(k) (1 - j_0(k chi)^2)/k^2 / (2 pi^2) for coinciding points; the plane-parallel lensing tables hold the corresponding integrals with half-integer n and l.",
     ["inputs", "configurations"], "symbolic spectra (3 nodes) and wavenumber ranges, every tabulated separation; multipole list [0, 2, 4]; transform length 3",
     "tests compare eight integrals with benchmarks at the separations of one file; the divergent and the plane-parallel ones and the limits at zero are not tested",
     [INT], [("tables", INT + ": integrals_*, coffe_integrals_init")], IN, observe=["Coffe.integral and every signal"])
prop("Y06", "Each Python request is evaluated in the mode of the output it returns",
     "Whatever was requested before, compute_corrfunc(_bulk) and compute_average_multipoles_bulk evaluate the signal outside of multipole mode and compute_multipole(s_bulk) in multipole mode (so the plane-parallel lensing options contribute exactly once to each of them), the integrals are always tabulated in multipole mode, "
     "each covariance is computed in its own mode, and every request and assignment leaves the object in multipole mode again.",
     ["histories", "inputs", "configurations"], "one request or assignment from an arbitrary state of the object (so every history), any arguments",
     "tests of the plane-parallel options cover multipoles only; a mode left behind needs two requests in a particular order with a particular option",
     [PYX], [("mode switched around a computation", PYX + ": _*_init, compute_corrfunc, compute_*covariance_bulk")], PYNOTE,
     observe=["compute_* with has_flatsky_nonlocal or has_flatsky_local_nonlocal"])
prop("T01", "Parallel loops have no data races",
     "In every parallel loop behind the tabulated integrals, the correlation function, the multipoles, the averaged multipoles and the covariances, two different iterations never access the same memory, or the same modifiable state of a library (lookup caches of interpolations, defaults of random generators, the planner of FFTW, error handlers), "
     "unless neither modifies it or both hold the same lock; so the number of threads and the schedule have no influence on any result.",
     ["schedules", "inputs", "configurations"], "any two iterations of each loop (symbolic indices), from the state at the start of the loop, symbolic settings, spectra, backgrounds and contributions; 2 redshifts, 2 separations, 2 angles, 2 multipoles; both 1D quadratures, plane-parallel or not, covariance by quadrature or 2D FFTLog",
     "tests run with one schedule the machine happens to choose, and a race in a cache or in one-time set-up shows up once in many runs",
     [INT, "src/signal.c", "src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", COV, "src/common.c"],
     [("parallel loops", "#pragma omp parallel for in src/integrals.c, corrfunc.c, multipoles.c, average_multipoles.c, covariance.c"), ("shared interpolations", "src/common.c: coffe_interp_spline, coffe_interp_spline2d"), ("generators of random numbers", "src/common.c: coffe_integrate_multidimensional")],
     "Memory accesses of one iteration from symbolic execution of clang's outlined OpenMP code; each access is attributed to the condition under which it happens; library calls by their documented effects on shared state; candidates are replayed on threads under ThreadSanitizer. The parallel loop of the (unused) generic 2FAST transform of two Bessel functions is not reached.",
     observe=["every compute_*_bulk method and the command line, with any nthreads"])
prop("F02", "The program writes the results it computed, all of them, under the right names",
     "For every output type, coffe_output_init writes one file per kind of result (corrfunc.dat, multipoles.dat, average_multipoles.dat, covariance_multipoles.dat, covariance_average_multipoles.dat) with one line per result, in the order of the results, "
     "each with its own coordinates and value (real numbers with at least 10 significant digits, multipoles as integers), below a header which names as many columns as there are and exactly the contributions selected; background.dat holds the requested background columns, in the order requested and with the values of the background; "
     "the settings are written to settings.cfg beside them. All names are output_path, then the time stamp and an underscore (prefix $TIME) or the prefix; missing directories of output_path are created and no others; nothing of an earlier run stays in a file. "
     "The program runs the stages settings, background, integrals, the requested signal or covariance and output in this order, all on the same data and with the number of threads asked for, and does not release data before they are written.",
     ["inputs", "configurations"], "any number of results up to 4 with any values, every output type, 23 selections of contributions (quick; all 1024 in the thorough run), several paths, prefixes and background columns, any number of threads",
     "no test runs the command-line program or reads what it writes",
     ["src/output.c", "src/main.c", "src/common.c"],
     [("output files", "src/output.c: coffe_output_init"), ("directories", "src/output.c"), ("tables", "src/common.c: write_ncol_null"), ("stages", "src/main.c: main")],
     "stdio, directories and libconfig by contracts (text of a file as a sequence of literals and printed numbers); background tables of two points; files are assumed to be writable.",
     observe=["coffe-cli -s settings.cfg [-n threads]"])

prop("F03", "The settings file is obeyed",
     "After coffe_parser_init every parameter has the value the settings file gives it: numbers, lists (for the output types they apply to), flags, contributions, output path and prefix, biases (constant, or the table of the file) and the power spectrum (the table of the file, times the squared window function of the window size when a window is asked for; the default spectrum when the file cannot be read), all interpolated with the requested method. "
     "Separations start at the minimum, with separations_sampling equal steps up to the maximum (excluded), or in steps of separations_step below the maximum; k_min and k_max are cut to the range of the spectrum; the dark energy and cold matter densities follow from the others. A parameter no setting names keeps its default, and the defaults are consistent with each other. "
     "Settings which are missing (other than optional ones), too long, out of range, or lists of different length where they belong together end the program with an error instead of a crash or a computation with other values; valid settings are never refused.",
     ["inputs", "configurations"], "any numbers; every output type; lists of 1-3 numbers; tables of 3-6 points; 3 separations or given minimum, maximum, step; each required setting missing in turn; each bias file unreadable in turn",
     "no test parses a settings file",
     ["src/parser.c", "src/common.c", "settings.cfg"],
     [("settings", "src/parser.c: coffe_parser_init"), ("defaults", "src/parser.c: coffe_parse_default_parameters"), ("biases", "src/parser.c: parse_bias, parse_bias_default"), ("separations", "src/common.c: coffe_generate_range")],
     "libconfig and the reader of tables by contracts; interpolations by the table and method they are given. CLASS settings are not compiled here. Missing lists (other than output_background) and more than 20 background columns are not covered.",
     observe=["coffe-cli -s settings.cfg"])
prop("F01", "Tables are read and written completely",
     "read_1col, read_2col and coffe_read_ncol return exactly the rows of a file, in order, each number in its column: whatever separators (blank, comma, tab, colon), comments (lines starting with #), blank lines, indentation, further columns, over-long lines, carriage returns or bytes beyond ASCII it has, and whether or not its last line is terminated; "
     "a line with fewer columns than asked for is an error, never a crash. write_1col, write_2col, write_ncol, write_ncol_null and write_matrix replace the file by the header, if any, and every row with all of its columns, with at least 10 significant digits, separated by the separator.",
     ["inputs"], "any numbers; files of up to 3 lines of 16 kinds (4 of 4 kinds), 1-3 columns; tables written with 1-4 columns and any number of rows up to 5, three separators",
     "the tests read well-formed benchmark files only and write nothing",
     ["src/common.c"],
     [("readers", "src/common.c: read_1col, read_2col, coffe_read_ncol"), ("writers", "src/common.c: write_1col, write_2col, write_ncol, write_ncol_null, write_matrix")],
     "The layout of a file to be read (kinds and number of its lines) is enumerated exhaustively within the bounds, its numbers are symbols; for the writers the number of rows is symbolic too. stdio and string functions by contracts.",
     observe=["coffe-cli with input_power_spectrum and bias files"])


prop("N01", "Numerical quadratures and transforms reach the requested accuracy",
     "Every quadrature (QAG, QAGI, Monte Carlo), spline interpolation and FFTLog transform which enters an output agrees with the integral, function or transform it stands for within the accuracy the settings ask for.",
     ["inputs", "configurations"], "all integrands the settings can produce, all sample counts and grid sizes",
     "the tests compare a few values with benchmark files at a tolerance of 1e-3 or more",
     ["src/common.c", "src/integrals.c", "src/twofast.c"],
     [("quadratures", "src/common.c: coffe_integrate_*"), ("transform", "src/twofast.c: twofast_1bessel, twofast_2bessel")],
     "", observe=["every computed output"], claimed=False)
NA.append({"property": "N01", "reason": "convergence of adaptive and Monte Carlo quadratures (GSL), of splines and of the FFTLog transform (FFTW, complex Gamma functions) is a statement of floating-point analysis over transcendental integrands inside library code; no encoding of it is decidable by an SMT solver within reach. What is integrated, over which range, with which weights and how often is decided (A01-A03, C01-C03, I02)."})

prop("N02", "The power spectrum of a CLASS build belongs to the current cosmology",
     "In a build with CLASS the linear (and, if chosen, the non-linear) power spectrum used is the one CLASS computes for the current cosmological parameters, and it is recomputed after each of them changes.",
     ["inputs", "histories"], "all cosmologies and histories of settings", "the tests load the power spectrum from a file",
     ["src/parser.c", "src/integrals.c", "python/coffe/coffe.pyx"],
     [("C", "src/parser.c, src/integrals.c under HAVE_CLASS"), ("Python", "python/coffe/coffe.pyx: _power_spectrum_init")],
     "", observe=["coffe-cli", "python/coffe/coffe.pyx: Coffe.power_spectrum"], claimed=False)
NA.append({"property": "N02", "reason": "CLASS is not installed in this sandbox, /repo is built without HAVE_CLASS, and the headers which the guarded code needs are absent: that code cannot be compiled or translated here."})
prop("N03", "The numerical building blocks do what their callers rely on",
     "The one-dimensional quadratures integrate the function they are given over the range and to the relative precision they are given; the built-in double-exponential rule is accurate. "
     "The multidimensional integral is taken over the unit cube of the stated dimension with the selected method and number of samples, and releases what it allocates. An interpolation is of the requested type, through all of the given points. "
     "The integral of four Legendre polynomials, the Kronecker delta, the sign, the window function, ranges, orderings and array operations have their defining values.",
     ["inputs", "configurations"], "all integrands, ranges, precisions, sample counts, interpolation types; Legendre degrees up to 6 (9 in the thorough tier); arrays up to 6",
     "tests only see these functions through a few benchmark values; alternative methods (double exponential, plain and miser Monte Carlo, other interpolations) are never run",
     ["src/common.c", "src/tanhsinh.c"],
     [("quadratures", "src/common.c: coffe_integrate_1d_prec_gsl, coffe_integrate_1d_prec_double_exponential, coffe_integrate_multidimensional; src/tanhsinh.c"),
      ("interpolation", "src/common.c: coffe_init_spline, coffe_init_spline2d, coffe_interp_spline, coffe_interp_spline2d"),
      ("other", "src/common.c: coffe_legendre_integral, coffe_kronecker_delta, coffe_sign, coffe_generate_range, coffe_max_array_double, coffe_compare_*, coffe_multiply_*")],
     "The double-exponential rule is decided exactly: monomials up to degree 10 of any amplitude over any range, error below 1e-12. GSL by contract.",
     observe=["every computed output"])


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note, level, claimed in P:
        if claimed:
            checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": TECH.get(p["id"], "symbolic execution of the LLVM IR of the current source, SMT (Z3) equality/assertion queries, counterexamples replayed on the compiled code"),
                           "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": NA,
         "notes": "Every check translates the current working tree; no hooks are compiled into /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


TECH = {k: "symbolic execution of the Python/Cython source (converted on every run) and of the LLVM IR of the C functions it calls, branch feasibility and assertions decided by SMT (Z3), counterexamples replayed on the built extension"
        for k in ("Y01", "Y02", "Y03", "Y04", "Y05", "Y06", "Y07")}

if __name__ == "__main__":
    main()
