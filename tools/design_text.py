"""hand-written parts of DESIGN.md (the bounds, functions and seeds are filled in by gen_design.py)"""

HEAD = """# Solver-based checking of craterstats

`properties.jsonl` lists 43 properties; all are decided by one machine, `symx/`, a bounded symbolic executor for the real Python
source with z3 as the deciding engine. There is one file per property under `harness/`; `check.sh P06 quick|thorough` runs it.
This file: the machine, what is decided per property, findings, planted bugs, limits.
(Generated by `tools/gen_design.py` from `tools/design_text.py`, the harnesses and the evidence; edit those.)

## 1. The machine

**Encoding, regenerated on every run.** `symx/shadow.py` installs an import hook for the package `craterstats`. Every module is read
from `/repo/src` (override for tests: `SYMX_SRC`), its syntax tree is rewritten (calls, f-strings, `in`, `%`, augmented assignment,
`except Exception`, a marker at each function entry), compiled and executed. Nothing is transcribed by hand; there is no model of a
craterstats function beside the code. The rewriting has no knowledge of the text of the functions, so a refactored function is
simply executed in its new form.

**Values.** Numbers (`symx/num.py`) are `(n/d)*10**e` with z3 terms n, d and a linear form e over exponent atoms; log10, powers,
roots and products are exact and linear in the exponents, and only sums of unlike powers introduce atoms `10**a` tied to `a` by
monotonicity and range facts. Text (`symx/strs.py`) is a sequence of character variables and constants of concrete length; slicing,
searching, splitting, case, quoting and regular expressions (Python's own pattern parser, matched by forking) work on it. A number printed into
text becomes a token that remembers its term and the format (`f'{x:.3g}'` is x times a factor within half a unit of the third digit).
NumPy arrays of symbolic numbers are object arrays; NumPy/SciPy functions on them are interpreted by `symx/shadow.py`
(`histogram`, `searchsorted`, `where`, `cumsum`, `interp`, `simpson`, ...). `scipy.optimize.curve_fit` is replaced by its contract
(weighted least-squares optimum for one additive parameter) and cross-checked by every replay, which runs SciPy itself.

**Exploration.** A harness calls the real code with symbolic inputs. A branch on a symbolic condition is a solver query for both sides;
both feasible sides are explored, by re-execution, until the case is complete or its time is used up. Each assertion is the query
"path condition and not assertion"; `unsat` discharges it for *all* inputs of the path, `sat` gives a counterexample.
Assertions are also asked about the path's floating point operations where the code can raise: an exception of the real code that the
harness does not allow is a violation as well.

**Replay.** A counterexample is never reported from the solver alone: its values are run through the *same harness* in a fresh process in
concrete mode, on the unmodified package imported from `/repo/src` with real NumPy, SciPy, files and formatting. Only if the
assertion fails there (and also fails for slightly perturbed values, so that a razor-edge rounding artefact is not reported) is `VIOLATION` printed, with a replay file.
A counterexample that does not reproduce counts as undecided, and so does an exception that only says that a stand-in of a harness
(a recorded axes, a fake random generator) lacks the argument, method or operator it was asked for (`symx/standin.py`). As a guard of the encoding, a sample of explored
paths is also solved for a model and replayed (`traces_validated_against_impl`); a difference is a check error.

**Vacuity.** Evidence lists how often each `reach` label was reached and the number of assertions per harness; a run that reaches no assertion is a check error.

**Verdict.** `model_checking` level: everything holds for all values *within the stated bounds* (numbers of craters, bins, characters; ranges
of values). Between them values are continuous and unrestricted: that is what the tests, which sample a few files, cannot reach.
Outside the bounds nothing is claimed.

**Evidence.** `evidence/<id>.json`: functions encoded (entered during symbolic runs), bounds, paths, branch decisions, obligations and
how many were discharged, inconclusive ones, solver queries and time, cases explored completely, undecided paths with reasons.

**Limits of the machine** (also in the evidence's assumptions):
floats are reals (comparisons carry a tolerance; rounding of a single operation is outside the model, NaN and infinities are carried through as special values);
lengths and sizes are concrete per case; compiled code (matplotlib, S2, shapely, pyproj, pyshp, BLAS, multiprocessing) is replaced by recording or
free-valued stand-ins; a case that runs out of time leaves its remaining paths unexplored, which the evidence states (`cases_explored_completely`).
No hooks are needed in `/repo`.

"""

HOW = {
'P01': ('Each crater gets a symbolic diameter, fraction or reference area; the file is written with tokens whose `float()` is the symbol, and the real readers read it. Oracle: the multiset of (diameter, weight) pairs and the header\'s area.', 'column orders, layouts, notations and ties that no sample file has'),
'P02': ('The real `apply_binning` on symbolic diameters (every order relation between crater and limits is a path). Oracle: each crater is in exactly one bin whose limits contain it; sums of weights, events and suffix sums.', 'craters exactly on limits, in the first and last bin'),
'P03': ('`generate_bins` on symbolic extrema. Oracle: consecutive limits of the published series, first below and last above the data, no superfluous bins.', 'every decade and every position inside one'),
'P04': ('`getplotdata` on bins with symbolic limits, counts, events and area; formulas of the presentations (with the Michael 2013 correction) are the oracle.', 'weighted counts and slopes other than those of the sample data'),
'P05': ('`decode_range` on symbolic limits (text tokens or numbers) and bin references. Oracle: names of bins by rank among the occupied ones, outward snapping by less than a bin.', 'limits on or next to bin limits, references beyond the ends'),
'P06': ('`getplotdata` with symbolic range limits against the same call without a range. Oracle: exactly the bins with their centre inside, in order, counts summed over them, enclosing bin range.', 'any position of the limits relative to the bins'),
'P07': ('`Productionfn` with symbolic coefficients: cumulative, differential, R, Hartmann and incremental forms against derivatives of the polynomial; shipped functions with symbolic diameters and constant terms.', 'coefficients and constant terms (0 included) not in the shipped file'),
'P08': ('As P07 for tabulated functions: nodes reproduced, log-log interpolation between, scaling by the constant term.', 'every reference entry and segment'),
'P09': ('`Chronologyfn`: rate equals derivative as an identity over symbolic parameters; `t(N(t)) = t` over density windows of each shipped curve.', 'all ages instead of some'),
'P10': ('`Productionfn.fit` with curve_fit\'s contract: zero weighted residual gradient and the one-sigma limit formula; quoted ages are those of the fitted terms.', 'all data, errors and numbers of points'),
'P11': ('`Craterpdf` constructor: crater number in the half-open range, expected number of the standard and buffered cases against the integral, on symbolic ranges, areas, perimeters.', 'craters on range limits; all areas'),
'P12': ('`Craterpdf` with an uninterpreted likelihood: normalised, cumulative monotone, percentiles ordered and inverse to the fraction.', 'all likelihood shapes, degenerate ones too'),
'P13': ('`resurf_adj` through `getplotdata` with arbitrary fit values: one common offset, largest bin on the fit, number of repetitions bounded.', 'fits that never settle; all data'),
'P14': ('`getisochron`/`getplotdata` of production functions over symbolic ranges and terms: inside validity, cut where equilibrium is crossed.', 'all constant terms and ranges'),
'P15': ('`Epochs`: limits are the chronology\'s ages of the densities, drawn in order with their own names and colours.', 'unsorted and fractional definitions'),
'P16': ('`calculate_sequence_probability` and `create_sequence_table` on symbolic distributions: complementary, 0/1 for disjoint, 1/2 for equal; table cells belong to their pair.', 'all distributions on small grids'),
'P17': ('`compute_age_area` with symbolic samples, percentiles and limits: the node\'s own area, age, expected number, stored value; axis parameters.', 'all node values'),
'P18': ('`sigfigs`, `str_age`, `scientific_notation`, `diameter_range`, percentile formatting on symbolic values: text parsed back within half a unit of the printed digit, unit prefix right.', 'decade and unit boundaries'),
'P19': ('`read_textstructure` on free text inside a known grammar: exactly the keys, lists and tables spelled.', 'all characters at each free place'),
'P20': ('`quoted_split`, `read_textfile`, `strip_quotes` and comment removal on all texts up to the bound.', 'exhaustive over characters instead of examples'),
'P21': ('`filename` on all names: parts concatenate to the name, codes select their parts.', 'punctuation, dots and separators anywhere'),
'P22': ('The argument parser\'s overplot specs with free values: fields set, inherited, defaulted.', 'orders of keys, values with separators'),
'P23': ('`decode_abbreviation` on free lists and abbreviations against the subsequence definition.', 'all abbreviations up to the bound'),
'P24': ('`main` saves, `LoadFromFile` reads (with the real shlex, itself executed symbolically): same tokens.', 'quotes, blanks, dashes and backslashes in every place'),
'P25': ('Histories A, B, A (and A on fresh objects) over requests to one count, drawings (all calls to matplotlib recorded) and whole runs of `main`: equal answers, inputs and shared tables unchanged.', 'pairs of requests with free data'),
'P26': ('`construct_cps_dict`, `set_default_filename`, `write_output_files`, `convert_format` with free names: the list of files written.', 'all names and combinations'),
'P27': ('`create_summary_table` with free results behind recording stand-ins: every cell parsed and compared with its own overplot; rank order; headings. Sequence table names.', 'every cell, type and order of overplots'),
'P28': ('`WriteStatFile` then `ReadStatFile` on symbolic bins.', 'all counts, fractional ones and single bins'),
'P29': ('`merge_cratercounts` on symbolic files: union of craters, sum of areas.', 'mixed types, fractions'),
'P30': ('The randomness result writer, reader, chart and rerun logic on symbolic trial values and counts.', 'all trial values, bins without data'),
'P31': ('Placement, area, distance, statistics and distribution of trials with free random draws and distances.', 'all draws and geometries within the bounds'),
'P32': ('`autoscale`, `gm.ticks`, Hartmann axis and time axis on symbolic ranges: contain data, whole decades, stated proportions.', 'all ranges'),
'P33': ('`Spatialcount` readers and fraction transform with stand-ins for the geometry libraries with free areas.', 'all fractions, ring numbers and nestings'),
'P34': ('`make_legend_label` on symbolic counts, ranges and densities: items requested, values their own.', 'all types of counts and ranges'),
'P36': ('`writeSHPfiles` with a recording shapefile writer, stand-in geometries with free vertices and affine stand-in projections: ring by ring, rim vertex by vertex.', 'several parts, holes, directions of drawing, craters at projection cell limits'),
'P37': ('`draw` of the real plot set over stand-in counts and functions whose values encode the request that was made, with a recorder for matplotlib: which values are drawn, with which colour and symbol, in which row or legend entry.', 'combinations of overplots, options and legends; all values'),
'P38': ('`age_area_plot`, `calculate_time_axis_params`, `create_time_axis_plotspace` and `Craterpdf.plot` with a recorder for matplotlib: the colour number of each free node under the recorded scale and colour map, a free point of the chart against the recorded polygons, tick and extent positions of the inset.', 'sparse or saturated charts, axis limits, all values'),
'P39': ('The drawing methods of `Randomnessanalysis`, `Craterplot.oplot_n_sigma` and `Spatialcount.plot` with a recorder for matplotlib whose axes have places on the page, and affine stand-ins for projection and geodesics: what is drawn is read back and compared with the free trial values, departures, positions and rings.', 'all values, layouts of 1 to 9 bins and selections'),
'P40': ('`cli.main` with the real parser and the real `Craterplotset`, on command lines with symbolic numbers and texts; the settings of the plot when it is drawn and the arguments of the saved picture are compared with the option given, and all others with the same command without it. Functions, counts and drawing are stand-ins.', 'all values; groups of 1 to 4 options, all presentations and bodies'),
'P41': ('`CreatePlotSpace` and `create_map_plotspace` with a recorder in place of matplotlib: figure and axes sizes, limits, scales, ticks, labels and titles as symbolic terms; labels are read back and compared with the position of their tick, sizes with the decades between the limits.', 'limits over several decades (x range at least one decade), boxes of at least 3 cm, Hartmann boxes not wider than high; all presentations and styles'),
'P42': ('`Functionslist`, `cli.main` and the constructors of `Productionfn`, `Chronologyfn` and `Epochs` on definition files with symbolic values and names, in stand-in installations (conda, frozen, neither).', '2 installed and 0 to 5 user definitions, absolute paths, distinct names'),
'P43': ('`source_cmds`, `demo`, `read_textfile` and the standard library\'s `shlex` on command lists with symbolic words; `main` is a recording stand-in (other checks decide a single command).', '0 to 14 commands of ten forms, two free characters each; well-quoted lines'),
'P35': ('`Spatialcount` scc writer and readers on symbolic craters and polygons.', 'holes, several parts, all values'),
}

TAIL = """## 3. Findings

Genuine defects met on the way were repaired by small `fix:` commits in `/repo` (each listed with its property and commit in
`known_findings.jsonl`; the harness that found it reports a violation again if the repair is undone). Open findings are the lines starting
with `{` there; the check prints a KNOWN-FINDING line for each and stays at exit 0:

%(open)s

Repaired:

%(fixed)s

Noted but outside the properties: `gm.range` of nothing returns NaNs as a tuple;
`--functions_user` outside a conda installation has no place to store its setting.

False alarms met and removed while building (property or machinery corrected, nothing suppressed): tolerances at rounding edges (now:
counterexamples must also fail when perturbed), text ordering of equal ages in the summary table, `Hartmann` correction factors compared with
`differential`, boundary distances on the sphere below the resolution of the stand-ins.

## 4. Planted bugs

%(seeds)s

Beyond these, `fix:` commits are the second test of the checks: on the tree before each of them the check of its property exits 1.
A mutation run over all functions the harnesses enter (operators, constants, conditions, dropped statements; only mutants that pass the tests)
was used to find weak spots; %(mut)s

## 5. What is not decided

Drawing itself (matplotlib's output), the graphical interface, the geometry libraries' own results, the SciPy optimiser and the downloaded data
are outside: compiled code or no source here. Functions shipped in `config/` are checked as given (shape, inverse, ranges), not against the literature.
"""
