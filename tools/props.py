"""The properties, in one place.  gen.py writes properties.jsonl and MANIFEST.json from them."""
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                      text=" ".join(text.split()), why=" ".join(why.split()), files=files,
                      mechanism=mechanism, technique=technique, note=" ".join(note.split()), **kw))


HIT = "xboa/hit/_hit.py"
BUNCH = "xboa/bunch/_bunch.py"
COMMON = "xboa/common/_common.py"

P("H01", "A hit is a faithful store of its variables over any history of edits",
  """After any sequence of sets, item assignments and construction from a dict, every variable of a
  hit reads back as the value last written to it and every other variable is unchanged; old aliases
  name the same variable. A set that is refused (unknown name, wrong type, number out of range) raises
  an IndexError and changes nothing.""",
  ["histories", "inputs"], """all sequences of reads and writes, through every access path (get/set,
  item syntax, list forms, dict construction, vectors), of all variables with all numbers and
  non-numbers""",
  """The tests set a few variables once; that no write, accepted or refused, disturbs another variable
  or another hit is a statement about every history.""",
  [HIT, "xboa/core/cpplib/Hitcore.cc", "xboa/core/pylib/PyHitcore.cc"],
  [("typed get/set by name in the C++ core, derived variables in python", "xboa/core/pylib/PyHitcore.cc")],
  "model-based testing of operation histories against a dict model (Hypothesis)",
  """Exploration: generated histories against a dict of values; doubles are compared bit for bit.""")

P("H02", "Derived hit variables follow their definitions, set or read, on mass shell",
  """Every derived variable (transverse radius and momentum, angles, slopes, velocity, kinetic energy,
  total momentum, time scaled by c, field and polarisation moduli...) equals its defining function of
  the stored variables; setting one makes it read back as set while the variables its definition keeps
  fixed are unchanged. Imposing the mass shell condition on one of energy, px, py, pz or p, or building
  a hit with one, gives E^2 = p^2 + m^2 with the sign of the momentum kept, and leaves everything else
  alone.""",
  ["inputs", "histories"], "all particles, all derived variables, every mass shell variable",
  """The tests compare a handful of particles; the identities are over all phase space and all
  signs.""",
  [HIT], [("tables of getters and setters; mass_shell_condition", HIT)],
  "property-based testing of identities against independent formulas (Hypothesis)",
  "Exploration: formulas are written again in the check; agreement to rounding error.")

P("H03", "Copies of a hit reproduce it and hit equality is a sound comparison",
  """Copying, deep copying, pickling, and evaluating the repr of a hit give an independent hit that
  holds the same values in every variable, and nothing done to one shows in the other. Two hits are
  equal exactly when no stored variable differs by more than the documented tolerance; equality and
  inequality are opposite and symmetric.""",
  ["inputs", "histories"], "all hits, all ways to copy, all single-variable differences",
  "The tests copy one hit; each of the 29 variables can be lost or aliased separately.",
  [HIT, "xboa/core/pylib/PyHitcore.cc"], [("copy/__deepcopy__/__getstate__/__repr__/__eq__", HIT)],
  "round-trip and independence testing (Hypothesis)",
  "Exploration: doubles up to the digits the repr keeps; pickles and copies exactly.")

P("H04", "Linear transformations of hits and bunches are the map they were given",
  """Abelian transformation of a hit or bunch by a matrix, translation and origin takes exactly the
  named variables of every hit to R (u - origin) + origin + translation, keeps mass shell for the
  energy-momentum variable chosen, and leaves every other variable alone; rotation or translation
  followed by its inverse restores the hit; translating a bunch moves every hit by the given amounts.""",
  ["inputs"], "all hits and bunches, all variable lists, all matrices and vectors",
  "The tests use one matrix on one hit.",
  [HIT, BUNCH], [("Hit.abelian_transformation, Hit.translate, Bunch.abelian_transformation", HIT)],
  "property-based testing against an independent linear map, and inverse round trips (Hypothesis)",
  "Exploration: against numpy arithmetic, to rounding error.")

P("W01", "Weights follow hit identity and the current weight context through any history",
  """The weight of a hit is its local weight times the global weight its (spill, event, particle) has in
  the current weight context, whatever sequence of weight sets, id changes, clears, cuts and context
  switches went before, and distinct ids never share a global weight. Arithmetic on contexts acts weight
  by weight and on the default, leaving its operands alone; bunch weights and weighted means use exactly
  these weights, and a refused call changes nothing.""",
  ["histories", "inputs"], """all histories over hits that share or nearly share ids, several contexts,
  every context operator, every form of argument""",
  """The tests set one or two weights and switch once; identity collisions, stale pointers after a
  switch, and defaults in arithmetic need a history.""",
  ["xboa/core/cpplib/WeightContext.cc", "xboa/core/pylib/PyWeightContext.cc", "xboa/core/cpplib/Hitcore.cc", HIT, BUNCH],
  [("per-context map from hit id to weight with a default", "xboa/core/cpplib/WeightContext.hh")],
  "model-based testing of histories against a dict model (Hypothesis)",
  "Exploration: a dict-with-default reference model, checked after every step.")

P("X01", "The core containers hold and return exactly what they were given",
  """Whatever sequence of hits is placed into a core bunch, its length, items, moments and means are
  those of that sequence in that order; reading an item returns the same hit, not a copy; a core matrix
  of moments is symmetric and agrees with the single moments; and no call keeps or drops a reference to
  the objects it was given, so memory use does not grow with the number of calls; a call that is
  refused changes nothing.""",
  ["histories", "inputs"], "all histories of set_item, reads, moments and cuts on core bunches",
  "The tests fill one container and read it back; ownership mistakes show only over many calls.",
  ["xboa/core/cpplib/Bunchcore.cc", "xboa/core/pylib/PyBunchcore.cc", "xboa/core/pylib/PyHitcore.cc"],
  [("vector of hits shared with python by reference count", "xboa/core/cpplib/Bunchcore.cc")],
  "model-based testing with reference counting oracle (Hypothesis)",
  "Exploration: list model and sys.getrefcount/gc accounting.")

P("X02", "No call into the core can corrupt memory or crash the interpreter",
  """Whatever arguments, of whatever type, value or number, are given to the functions of the core hit,
  bunch and weight context, and whatever the callbacks they call do (raise, delete items, change the
  container), the call returns a value or raises a python exception; memory stays valid and the
  interpreter does not abort.""",
  ["inputs", "histories"], "all call sequences with well- and ill-typed arguments and hostile callbacks",
  "The tests pass good arguments; C++ argument parsing fails on the others.",
  ["xboa/core/pylib/PyBunchcore.cc", "xboa/core/pylib/PyHitcore.cc", "xboa/core/pylib/PyWeightContext.cc",
   "xboa/core/cpplib/Bunchcore.cc"],
  [("hand-written CPython argument parsing", "xboa/core/pylib/PyBunchcore.cc")],
  "structured API fuzzing under AddressSanitizer and UBSan (Hypothesis)",
  "Exploration: call sequences in a sanitizer build; each is replayable.")

P("B01", "A bunch is a list of hits, kept in step with its core",
  """Through any history of appends, insertions, assignments, slices, deletions, sorts and
  concatenations a bunch holds the hits a python list would hold, in the same order, and every quantity
  computed by the core (weights, moments, cuts) is over exactly those hits. Splitting a bunch by a
  variable partitions it: every hit is in exactly one part, under its own value.""",
  ["histories"], "all sequences of list operations, mixed with core calculations",
  "The tests do single operations; the list and the core drift apart only over a history.",
  [BUNCH, "xboa/core/cpplib/Bunchcore.cc"], [("python list and C++ Bunchcore hold the same hits", BUNCH)],
  "model-based stateful testing against a python list (Hypothesis)",
  "Exploration: the model is a python list; the core is compared after every step.")

P("B02", "Bunch statistics are the weighted sums they are defined to be",
  """Every mean, moment of any order about any given or missing means, covariance matrix and standard
  deviation of a bunch equals the weighted sum over its hits, for stored and derived variables alike; it
  does not depend on the order of the hits or the scale of the weights, ignores hits of weight zero, adds
  up over parts, and moves with the bunch. A bunch without weight has no moments: the call raises.""",
  ["inputs"], "all bunches, weights, variables and origins",
  "The tests check a few moments of one file of hits; the sums are over every bunch and variable.",
  [BUNCH, "xboa/core/cpplib/Bunchcore.cc"], [("Bunch.moment: C++ sum, python sum for derived variables", BUNCH)],
  "property-based testing against exact summation, and metamorphic relations (Hypothesis)",
  "Exploration: math.fsum reference, tolerance set by the size of the terms summed.")

P("B03", "Cuts act on exactly the hits their condition names",
  """After any sequence of cuts - local or global, by value or in standard deviations, on stored,
  derived or amplitude variables, with any comparator - a hit has weight zero exactly if some condition
  named it, and every other weight and value is as before; conditional removal leaves exactly the other
  hits in order; a transmission cut keeps exactly hits with a partner in the test bunch; clearing
  weights undoes cuts of its kind only.""",
  ["histories", "inputs"], "all sequences of cuts on all bunches",
  "The tests cut one bunch a few ways; that cuts compose and touch nothing else needs histories.",
  [BUNCH, "xboa/core/cpplib/Bunchcore.cc"], [("Bunch.cut, _cut, Bunchcore.cut_double, transmission_cut", BUNCH)],
  "model-based testing of cut histories (Hypothesis)",
  "Exploration: the decision is recomputed per hit; cases at rounding distance of a cut are skipped.")

P("B04", "Copies of a bunch are equal and independent; equality sees every difference",
  """Deep copies of a bunch by any route, and the evaluated repr, hold the same hits and internal
  covariances and compare equal; any change to one then leaves the other as it was and makes them
  unequal, in both directions. A shallow copy shares its data.""",
  ["histories", "inputs"], "all bunches, all ways to copy, all single changes",
  "Equality that overlooks a field or a copy that shares one passes any test that does not change it.",
  [BUNCH], [("Bunch.__deepcopy__, __repr__, __eq__, new_from_hits", BUNCH)],
  "round-trip and independence testing (Hypothesis)",
  "Exploration: one change per case, over every stored variable, list operation and cached matrix.")

P("B05", "The internal covariance matrix changes no answer while it is up to date",
  """With the internal covariance matrix switched on and refreshed since the bunch last changed, every
  moment, emittance, Twiss parameter and amplitude is what the bunch gives without it; switched off, the
  bunch is calculated afresh; with a supplied matrix and means, the answers are those of that matrix.""",
  ["histories", "inputs"], "all histories of switching, refreshing and changing, all axis lists",
  "The tests switch it on once on a fresh bunch; a stale or mis-indexed cache needs a history.",
  [BUNCH], [("set_covariance_matrix, __cov_mat_picker, __mean_picker", BUNCH)],
  "differential testing of histories with and without the cache (Hypothesis)",
  "Exploration: compared with a bunch of the same hits that never had a cache.")

P("B06", "Emittance, Twiss parameters and angular momentum follow their definitions",
  """For any weighted beam, list of axes and choice of kinetic or geometric momenta, made by argument
  or by the global setting, the emittance, beta, alpha, gamma, dispersion, dispersion prime, kinetic and
  canonical angular momentum are the documented functions of the weighted covariances, beta gamma minus
  alpha squared is 1 in one axis, and the order of axes is irrelevant; unknown axes are refused.""",
  ["inputs"], "all beams, axis lists and conventions",
  "The tests compare a few numbers on one file; the definitions hold over all beams.",
  [BUNCH], [("get_emittance, get_beta, get_alpha, get_gamma, get_dispersion...", BUNCH)],
  "property-based testing against independent formulas (Hypothesis)",
  "Exploration: numpy on exactly summed covariances; tolerance follows the condition of the matrix.")

P("B07", "Emittance and amplitude are invariants, and amplitudes add up to the emittance",
  """A symplectic linear map of a beam, about any origin and with any translation, changes neither its
  emittance nor any particle's amplitude; the weighted mean amplitude is twice the number of axes times
  the emittance; transforming a bunch to a target covariance gives that covariance up to the factor that
  keeps the determinant, then translates, and leaves other variables alone.""",
  ["inputs"], "all beams, maps, origins and targets",
  "Conservation laws quantify over all maps; the tests apply one.",
  [BUNCH], [("get_amplitude, transform_to, abelian_transformation", BUNCH)],
  "metamorphic testing with random symplectic maps (Hypothesis)",
  "Exploration: cases whose covariance is too close to singular are skipped by a stated rule.")

P("B08", "Ellipse builders and shells give beams with the parameters asked for",
  """A beam whose covariance is the matrix built for given Twiss parameters has exactly those Twiss
  parameters, emittance and (for solenoid ellipses) canonical angular momentum; impossible parameters are
  refused. A shell of hits has the promised number of hits, numbered in order, each on the ellipse, on
  mass shell, and at the defaults in all other variables.""",
  ["inputs"], "all Twiss parameters, fields, ellipses and dimensions",
  "Builder and reader of the Twiss parameters are inverse for all parameters; the tests try one set.",
  [BUNCH, COMMON], [("build_ellipse_2d, build_penn_ellipse, new_hit_shell", BUNCH)],
  "round-trip testing: parameters to matrix to beam to parameters (Hypothesis)",
  "Exploration: beams are constructed with exactly the covariance asked for.")

P("B09", "Reading values out of bunches gives the hits' values, order and units",
  """Lists of hit values come in hit order, divided by the units asked for; selections give exactly the
  hits in the relation; quantities over many bunches stay together in rows, sorted by the first;
  folding into a period moves each hit by whole periods into one period and changes nothing else.""",
  ["inputs"], "all bunches, variables, units, relations, periods",
  "The tests read a few lists.",
  [BUNCH, COMMON], [("list_get_hit_variable, get_hits, list_get, period_transformation", BUNCH)],
  "property-based testing against per-hit recomputation (Hypothesis)",
  "Exploration: independent tables of units.")

P("C01", "Units, constants and particle tables agree with physics and each other",
  """Every unit in the table has its value in the internal units (mm, ns, MeV, e, rad, kT, MV, GHz), so that a
  quantity read in two units differs by their ratio; every particle has its mass, charge and name, its
  antiparticle the opposite charge; file codes of particles map to their particle and back.""",
  ["inputs"], "all units, pairs of units of a dimension, particles and codes",
  "The tests look up a few entries; a wrong factor in any other silently rescales data.",
  [COMMON, BUNCH], [("units, constants, pdg_pid_to_*, icool and mars tables", COMMON)],
  "exhaustive enumeration of the tables against independent ones; generated conversions (Hypothesis)",
  "Exploration: tables are covered entirely; conversions are sampled.")

P("C02", "Binning puts every weighted point in the one bin that contains it",
  """Histograms of values or of bunches in one or two dimensions hold in each half-open bin exactly the
  weight of the points inside it; points outside are left out; edges and ranges cover the weighted data or
  the limits given; the input lists are unchanged.""",
  ["inputs"], "all points, weights, edges, ranges and numbers of bins",
  "The tests compare total weights; a point in the wrong bin or on an edge keeps the total.",
  [COMMON, BUNCH], [("histogram, get_bin_edges, min_max, n_bins; Bunch.histogram", COMMON)],
  "property-based testing against direct placement (Hypothesis)",
  "Exploration. Known finding: limits of Bunch.histogram in non-internal units are not exercised.")

P("C03", "Grids and shells have the promised points, each where it should be",
  """A grid has every combination of equally spaced values between -1 and 1 once, in independent arrays; a
  shell has one point on the ellipse about its mean in the direction of each grid point except the centre;
  a normalised vector keeps its direction and lies on the ellipse. Arguments are unchanged.""",
  ["inputs"], "all dimensions, numbers of points, ellipses, means and vectors",
  "The tests check one dimension and ellipse; a point repeated or missed shows only when all are compared.",
  [COMMON], [("make_grid, make_shell, normalise_vector", COMMON)],
  "property-based testing against an enumeration (Hypothesis)",
  "Exploration: up to 5 dimensions and 700 points.")

P("C04", "fit_ellipse is the weighted ellipse of the points inside its cut",
  """The centre and matrix returned are the weighted mean and covariance of exactly the points whose
  normalised amplitude about the ellipse before is below the cut, repeated until nothing changes or the
  number of iterations is reached. Order and tuple or list form of points, and a factor on all weights, do
  not matter; a fit that cannot be completed still returns a centre and a matrix; arguments are unchanged.""",
  ["inputs"], "all clouds of points in 1 to 4 dimensions, weights, cuts and numbers of iterations",
  "The tests fit one cloud loosely; which points are inside decides the answer in each iteration.",
  [COMMON], [("fit_ellipse, _update_fit_ellipse_cut", COMMON)],
  "differential testing against a model of the documented iteration (Hypothesis)",
  "Exploration: cases with a point too close to the cut or a matrix too close to singular are skipped.")

P("C05", "Newton-Raphson returns a root of the function it was given",
  """For well conditioned systems both forms return a point where every component of the function is within
  its tolerance, or say that they stopped short; the function is only asked for points of the right
  dimension, a bounded number of times; the start values and steps are unchanged; a singular system returns
  a point and an exception in the function is not swallowed.""",
  ["inputs"], "all systems of 1 to 4 equations, starts, steps, tolerances and iteration limits",
  "The tests solve one system.",
  [COMMON], [("nd_newton_raphson1, nd_newton_raphson2", COMMON)],
  "property-based testing with constructed roots (Hypothesis)",
  "Exploration: linear and mildly bent diagonally dominant systems; limits are not exercised.")

P("C06", "process_list gives every result in order; subprocesses run, and end when told to",
  """process_list returns one entry per call in the order of the calls, its value or the exception it raised,
  whatever the timing, using no more than the processes allowed. A subprocess runs its function once with
  its arguments in another process; kill_all_subprocesses ends all that still run, and so does the end of
  the script unless that is switched off.""",
  ["schedules", "inputs", "faults"], "all lists of calls, results, failures, delays and numbers of processes",
  "The tests run one function without failures; order and loss of results depend on the schedule.",
  [COMMON], [("process_list, subprocess, kill_all_subprocesses, __atexit", COMMON)],
  "property-based testing with generated delays and failures in real processes (Hypothesis)",
  "Exploration: schedules arise from generated delays, they are not enumerated.")

P("C07", "Sorting together, substituting, comparing samples, requiring modules",
  """multisort orders rows by the first list, stably, in place and keeps rows together; substitute replaces
  every occurrence of each key in a file and nothing else; kolmogorov_smirnov_test is the Kolmogorov
  probability of two samples in any order; require_modules raises exactly for modules not imported, naming
  them.""",
  ["inputs"], "all lists, files and keys, samples, module names",
  "The tests use one small example of each.",
  [COMMON, "xboa/common/utils.py"], [("multisort, substitute, kolmogorov_smirnov_test; require_modules", COMMON)],
  "property-based testing against independent implementations (Hypothesis)",
  "Exploration: substitutions whose result depends on the order of keys are skipped.")

P("P01", "Plots show exactly the data they were given",
  """Every graph, scatter plot, multigraph, histogram, ratio and ellipse, made with matplotlib or ROOT, of
  lists or of bunches, holds exactly the points, bin weights or values of the data in the units asked for,
  sorted only if asked, on axes that have the labels and ranges asked for; the figure or canvas that is
  returned is the one drawn on; lists and bunches are left as they were.""",
  ["inputs"], "all data, weights, units, bins, ranges, orders and styles",
  "The tests only check that plotting does not fail; nothing reads back what was drawn.",
  [COMMON, "xboa/common/matplotlib_wrapper.py", BUNCH],
  [("make_root_*, make_matplot_*", COMMON), ("make_graph ...", "xboa/common/matplotlib_wrapper.py"),
   ("root_histogram, root_graph, matplot_graph...", BUNCH)],
  "property-based testing that reads back the artists and ROOT objects (Hypothesis)",
  "Exploration: objects are read back, rendered pixels are not.")

P("F01", "What is written in a built-in file format is what is read back",
  """In every built-in line format a hit is written as its variables in the documented columns, units and
  particle codes and reads back with those values, mass and charge of its particle and energy on mass
  shell. Files of bunches, lists and dicts hold every hit the format can name, ordered by station, under
  the given comment; readers return all hits of all matching files in order, split and selected as asked.
  Writing changes nothing in memory.""",
  ["inputs"], "all hits, particles, formats, units, comments, selections, layouts of the text",
  "The tests write one hit per format and compare a few columns.",
  [HIT, BUNCH, "xboa/hit/factory/_builtin_hit_factory.py", "xboa/hit/factory/_line_factory_base.py"],
  [("tables of columns and units; _read_formatted, __write_formatted", HIT)],
  "round-trip and differential testing against an independent table of the formats (Hypothesis)",
  "Exploration: text parsed and printed independently; values to the digits of a unit conversion.")

P("F02", "Damaged files are reported, never turned into hits that were not there",
  """In the line formats a line with a wrong number of words is skipped and the number of such lines is
  reported, wherever it stands, and all other lines read as without it; read hit by hit it raises
  BadEventError, and the end of file EOFError. A word that is not a number never becomes part of a hit.
  Whatever the text, the hits read are exactly its well formed lines, or reading raises.""",
  ["inputs", "faults"], "all texts; all damage to lines at all positions, under all selections",
  "The tests read good files and one bad line.",
  ["xboa/hit/factory/_line_factory_base.py", "xboa/hit/factory/_builtin_hit_factory.py", BUNCH],
  [("_read_formatted; new_from_read_builtin counts bad events", "xboa/hit/factory/_line_factory_base.py")],
  "fault injection into generated files, and grammar-based fuzzing, with an independent parser as oracle",
  "Exploration: damage by words and lines; any_text is a token fuzzer.")

P("F03", "User-defined formats have the columns, units and order asked for",
  """Writing in a user format gives, for each hit, the variables asked for in their order and units with the
  separator given, sorted only by the comparator given; reading takes the columns back into the same
  variables whatever their order, completes mass, charge and the mass shell variable, and honours skipped
  lines, selections and bad lines. Formats naming unknown variables or units are refused before reading.""",
  ["inputs"], "all lists of variables, units, separators, comparators and particles",
  "The tests use one format of six columns.",
  ["xboa/hit/factory/_user_hit_factory.py", "xboa/hit/factory/_line_factory_base.py", HIT, BUNCH],
  [("UserHitFactory; write_user_formatted; hit_write_user", "xboa/hit/factory/_user_hit_factory.py")],
  "property-based testing against an independent table of units and writer (Hypothesis)",
  "Exploration: stored variables when reading, stored and derived variables when writing.")

P("F04", "MAUS json documents carry the hits they were made from",
  """The tree made of a list of hits groups them by event and particle with every documented variable under its
  maus name; written to a file and read back, by any reader, it gives the same hits, numbered by spill and
  event. Reading finds all hits of all types asked for in any sequence of documents, passing over those that
  are not spills or have no data, and stops with BadEventError.""",
  ["inputs"], "all groupings of hits, all sequences of documents and types, all selections",
  "The tests read one document.",
  ["xboa/hit/factory/_maus_json_hit_factory.py", HIT, BUNCH],
  [("get_maus_tree; MausJsonHitFactory; read_maus_json_file", "xboa/hit/factory/_maus_json_hit_factory.py")],
  "round-trip testing and generated documents against an independent reader (Hypothesis)",
  "Exploration: spills that are malformed inside an event are not generated.")

P("F05", "MAUS ROOT trees and OPAL probe files are read hit by hit as they stand",
  """A tree of MAUS gives, from the spill asked for on, exactly the hits of the type asked for in order, each with the
  position, momentum, time, particle, mass and charge MAUS has for it, numbered by spill and event, on the mass
  shell; track points and times of flight are chosen by the cuts and detectors asked for; each line of an OPAL
  probe file gives its hit, in units, at a station of its own probe and turn. Tests on hits and numbers of hits
  are kept, what is not a hit is passed over with BadEventError, and the end is the end.""",
  ["inputs"], "all trees of spills, events, tracks and particle types, all probe files, all selections",
  "The tests read one tree, with ROOT and MAUS, that are not there in most installations, and no OPAL file.",
  ["xboa/hit/factory/", BUNCH, HIT],
  [("MausRootHitFactory", "xboa/hit/factory/_maus_root_hit_factory.py"), ("OpalHitFactory", "xboa/hit/factory/_opal_hit_factory.py"),
   ("read_maus_root_file, new_list_from_maus_root", BUNCH)],
  "generated trees and files against an independent reader (Hypothesis)",
  "Exploration: the classes of MAUS are stand-ins with its names; its library is not installed.")

ALG = "xboa/algorithms/"

P("C08", "Without ROOT, matplotlib, scipy or numpy the rest works the same",
  """Whichever of the optional packages are missing, every module can still be imported that does not need them
  by nature, xboa.common.config says which are there, and an operation that does not need what is missing gives
  the same result as with everything; one that does raises ImportError and no other error.""",
  ["inputs", "configurations"], "all operations and sets of missing packages",
  "The tests run in one installation, that has everything.",
  [COMMON, "xboa/common/config.py", BUNCH, HIT, "xboa/algorithms/"],
  [("has_numpy, has_scipy, has_root, has_matplotlib", "xboa/common/config.py")],
  "differential testing of generated operations between processes with and without the packages (Hypothesis)",
  "Exploration: modules that are about a package (tracking, weighting, tune) may need it to be imported.")

P("A01", "Peak finders find the peaks their definitions describe",
  """The window finder returns each highest point of a window that is not at an inner window boundary, once and in
  order, and a threshold only removes peaks; the slope finder returns exactly the points above both neighbours;
  its error estimate is where the line through the slopes is zero. Refinement of an estimate finds the vertex of a
  parabola, its height and covariance, stays in its range and does not depend on the other estimates.""",
  ["inputs"], "all signals, plateaus and ties included, windows, steps, thresholds, estimates",
  "The tests look at a few fixed signals, and not at the refining finder.",
  [ALG + "peak_finder/_window_peak_finder.py", ALG + "peak_finder/_uphill_downhill_peak_finder.py",
   ALG + "peak_finder/_refine_peak_finder.py"],
  [("find_peaks", ALG + "peak_finder/_window_peak_finder.py"),
   ("find_peaks, find_peak_errors_derivative", ALG + "peak_finder/_uphill_downhill_peak_finder.py"),
   ("find_peak_errors", ALG + "peak_finder/_refine_peak_finder.py")],
  "property-based testing against the definitions and exact parabolas (Hypothesis)",
  "Exploration: up to 96 points; the refining finder on curves that are not flat.")

P("A02", "Smoothing gives the weighted mean, the cut or the fit it is defined as",
  """Gaussian smoothing gives for each point the mean of the points within range weighted by a Gaussian of the
  distance, over the available or over all weights. Cut smoothing keeps, in all columns and in order, the rows
  whose target value is within the cut of the mean of their step. Fit smoothing gives the values of the least
  squares fit. The data given is left as it was.""",
  ["inputs"], "all signals, lengths, widths, ranges, steps, cuts and columns",
  "The tests smooth one or two fixed signals.",
  [ALG + "smoothing/_gaussian_smoothing.py", ALG + "smoothing/_cut_smoothing.py",
   ALG + "smoothing/_fit_smoothing.py"],
  [("smooth", ALG + "smoothing/_gaussian_smoothing.py"), ("smooth_table", ALG + "smoothing/_cut_smoothing.py"),
   ("smooth", ALG + "smoothing/_fit_smoothing.py")],
  "property-based testing against the definitions, with metamorphic relations (Hypothesis)",
  "Exploration: up to 30 points; polynomials up to degree 2.")

P("A03", "Tune finders find the tune of motion on an ellipse",
  """From points that go round any ellipse the phase advance finder gives the mean advance in turns: k/n exactly
  for whole turns, else within one turn over the number of advances. The Fourier finder gives the tune of a
  sinusoid to a fraction of a bin and keeps its spectrum. Both give the tune of the lattice when they track a
  displaced hit, give the same when asked again, and leave data and reference hit alone.""",
  ["inputs", "histories"], "all ellipses, tunes, lengths, phases, lattices, selections of hits",
  "The tests use one ellipse and one sinusoid.",
  [ALG + "tune/_dphi_tune.py", ALG + "tune/_fft_tune.py"],
  [("get_tune, run_tracking, get_dphi_list", ALG + "tune/_dphi_tune.py"),
   ("get_tune, run_tracking", ALG + "tune/_fft_tune.py")],
  "property-based testing on motion of known tune (Hypothesis)",
  "Exploration: 50 to 160 points and tunes in 0.06 to 0.44 for the Fourier finder.")

P("A04", "The closed orbit finder converges on the fixed point of the tracking",
  """An iteration holds the hits of the turns asked for, continued from the last hit when tracking gives too few, with
  their mean, covariance and amplitudes as centre, ellipse and noise. The search tracks each time from the centre
  before, ends by itself or after the iterations allowed, and on a linear map gets to the fixed point. A scan has
  one iteration for each point of its grid, the end left out. Tracking that gives nothing new raises an error.
  Plots show the points and ellipse in the units asked for; the seed is left alone.""",
  ["inputs", "histories"], "all stable linear maps of one or two planes, seeds, turns, limits, scans, units",
  "The tests call an interface that no longer exists.",
  [ALG + "closed_orbit/_ellipse_closed_orbit_finder.py"],
  [("EllipseClosedOrbitFinder; EllipseClosedOrbitFinderIteration", ALG + "closed_orbit/_ellipse_closed_orbit_finder.py")],
  "property-based testing on linear maps with known fixed point (Hypothesis)",
  "Exploration: linear maps, tunes away from resonances.")

P("A05", "DecoupledTransferMatrix finds the optics of any stable symplectic matrix",
  """The decoupling matrices block-diagonalise any stable symplectic matrix: R M R^-1 is made of 2x2 rotations with
  the matrix's own phase advances, alpha and beta are the Courant-Snyder parameters of the planes, and the ellipse
  made from eigen-emittances is matched (M V M^T = V) and has those emittances. Matrices that are not square, of
  odd size or not symplectic are refused.""",
  ["inputs"], "all stable symplectic matrices of 1 to 3 planes with distinct tunes, any coupling, any emittance",
  "The tests use a few matrices in two planes.",
  [ALG + "decoupled_transfer_matrix.py"],
  [("DecoupledTransferMatrix", ALG + "decoupled_transfer_matrix.py")],
  "property-based testing on matrices made from known optics (Hypothesis)",
  "Exploration: phases of the planes differ by at least 0.2 rad and are away from 0 and pi.")

TRK = "xboa/tracking/"

P("T01", "MatrixTracking applies exactly the matrices and offsets it was given",
  """Tracking a hit gives the hit itself and one hit per matrix: the matrix times the displacement of the hit from the
  input offset, plus the output offset, on mass shell and otherwise as it was. Tracking many gives those of each
  in order, and last is what was tracked last. What was given is left alone. Matrices and offsets of the wrong
  type, shape or number are refused; the base class leaves tracking to its subclasses.""",
  ["inputs"], "all matrices, offsets, hits of any particle and weight, malformed arguments",
  "The tests track one hit through one lattice.",
  [TRK + "_matrix_tracking.py", TRK + "_tracking_base.py"],
  [("MatrixTracking", TRK + "_matrix_tracking.py"), ("TrackingBase", TRK + "_tracking_base.py")],
  "property-based testing against a matrix model (Hypothesis)",
  "Exploration: up to 5 matrices and 4 hits.")

P("T02", "Tracking in other processes gives what tracking in this process gives",
  """MultiTrack divides hits evenly and in order between its processes so that each is tracked once, waits for all,
  and gives the results in the order of the hits, however long each takes, leaving out those that failed. A
  tracking process, over any history of starting, waiting, stopping, pickling and new hits, says truly whether it
  is alive, gives only the result of its own tracking and only when finished, and removes its own files only; one
  run by a batch system submits, follows and kills its own job and reports its exit code.""",
  ["inputs", "schedules", "histories"], "all numbers of hits and processes, orders of finishing, failures, histories",
  "The tests run one division of the work.",
  [TRK + "_multitrack.py", TRK + "tracking_process/"],
  [("MultiTrack", TRK + "_multitrack.py"), ("ThisNodeProcess, TrackingProcess", TRK + "tracking_process/")],
  "model-based testing with generated schedules of stand-in processes, and with real ones (Hypothesis)",
  "Exploration: the batch system is a stand-in that answers as the one the code is written for (LSF).")

P("P02", "Plots of the tune finders show their data, spectrum and fit",
  """What the tune finders draw, with ROOT or matplotlib, is the signal in order, the phase space, the points on the
  circle scaled as asked, or the magnitude of the Fourier sums at the frequencies calculated, on axes, limits and
  canvases asked for; a fit drawn is the least squares fit to the points in its window and no others; plotting
  changes neither the data nor the tune.""",
  ["inputs"], "all signals, windows, limits, scales and fit functions",
  "The tests only look at whether plotting works.",
  ["xboa/algorithms/tune/_fft_tune.py", "xboa/algorithms/tune/_dphi_tune.py"],
  [("plot_signal, plot_phase_space, plot_fft, plot_fft_fit", "xboa/algorithms/tune/_fft_tune.py"),
   ("plot_phase_space_*, plot_cholesky_space_*", "xboa/algorithms/tune/_dphi_tune.py")],
  "property-based testing that reads back what was drawn, against sums as written and numpy fits (Hypothesis)",
  "Exploration: the result of the Gaussian fit itself is ROOT's and is not checked, only what it was given.")

P("T03", "MAUSTracking tells MAUS and the user the same particles",
  """Each hit given becomes one primary with its position, momentum, time, energy and particle, and a seed that counts
  up; MAUS is given the datacards once per object, after ending what ran before; the virtual hits it answers come
  back as hits of the right primary, in order, with the values MAUS gave, on mass shell, numbered by event, track,
  station and spill. Without MAUS it raises ImportError.""",
  ["inputs", "histories"], "all hits, numbers of primaries, virtual hits, empty events, repeated runs",
  "The tests need MAUS, which is not there.",
  [TRK + "_maus_tracking.py"],
  [("MAUSTracking", TRK + "_maus_tracking.py")],
  "property-based testing against a recording stand-in for MAUS (Hypothesis)",
  "Exploration: the stand-in follows the documents' definition, not MAUS.")

WGT = "xboa/bunch/weighting/"

P("W02", "Voronoi weights are tile content times target density, inside the bound",
  """VoronoiWeighting sets local or global weight of each hit inside the bound to the content of its Voronoi tile, closed
  by the bounding points, times the Gaussian density of the ellipse and mean given, and of hits outside to 0, whatever
  the number of processes, leaving all else as it was. The bound has its points on the ellipse and keeps, in order,
  the points inside; HullContent gives the content of any list of tiles, 0 for open ones; plots show those tiles, coloured
  in the order of what they stand for.""",
  ["inputs"], "all sets of distinct points, ellipses, means, bounds, numbers of processes, slices and axes of plots",
  "The tests compare a few sums of contents and look at plots.",
  [WGT + "_voronoi_weighting.py", WGT + "_bounding_ellipse.py", WGT + "_hull_content.py"],
  [("apply_weights, get_pdf, plot_two_d_projection", WGT + "_voronoi_weighting.py"),
   ("BoundingEllipse", WGT + "_bounding_ellipse.py"), ("HullContent", WGT + "_hull_content.py")],
  "property-based testing against an independent half-plane tesselation (Hypothesis)",
  "Exploration: weights and plots in two dimensions, contents in two and three; points are distinct.")

P("W03", "Multipole weighting gives a bunch exactly the moments asked for",
  """After MultipoleWeighting is applied the weighted moments of the bunch are those set as a list, in any order, or
  those of the target mean and covariance ellipse; each weight is the one before times a polynomial of the variables
  with the moments' powers, the sum of weights is the length of the bunch and all else is left as it was; applied
  again it changes nothing. Indices that are repeated, malformed or beyond the maximum pole are refused.""",
  ["inputs"], "all bunches, weighted or not, variables, sets of moments, targets",
  "The tests look at two variances, to 20 percent, of bunches with mean 0.",
  [WGT + "_multipole_weighting.py"],
  [("apply_weights, set_target_moments", WGT + "_multipole_weighting.py")],
  "property-based testing against the defining equations (Hypothesis)",
  "Exploration: up to three variables, third order and six moments; well conditioned sets of moments.")

EX = "xboa/examples/"

P("E01", "The programs XBOA9f and File_Convert do what their documents say",
  """XBOA9f writes one line for each station of the input file with enough particles, in order, whose columns are the
  emittances, optics, means, spreads, dispersions and particle counts of the particles left by the cuts in particle type,
  momentum, last station and rf bucket and by the weights asked for; control files written are read as they were.
  File_Convert writes the particles of the input file, or of one station, in the other format, rotated to the covariance
  asked for, translated and put on mass shell.""",
  ["inputs"], "all beams, control files, command lines, formats",
  "The tests run XBOA9f once on a file that is not there, and only look at its status.",
  [EX + "XBOA9f", EX + "File_Convert.py"],
  [("ecalc9f, weight_handler, get_bunch_data, read_ecalc9_inp", EX + "XBOA9f"),
   ("file_convert", EX + "File_Convert.py")],
  "property-based testing of whole runs against definitions of the columns (Hypothesis)",
  "Exploration: the programs are examples, which may not be repaired, and do not run with python 3 as they are; the "
  "check lends them the names they miss and keeps off the other known findings. Canonical angular momentum (in units its comment calls a bug) and longitudinal acceptances other than "
  "none and all are not checked; the output has four digits.")
