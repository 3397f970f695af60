"""writes /verif/properties.jsonl (one source for ids, titles, statements)"""
import json, os
S = 'src/craterstats/'
P = []

def p(id, title, statement, qtext, why, files, mech, over=('inputs',), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
             why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    assert len(title) <= 80, (len(title), title)
    P.append(d)

p('P01', 'Reading a crater file keeps every crater with its own weight and the area',
  'Reading a .diam or .scc file yields exactly the craters listed, each diameter paired with the fraction given on its own row (1 when the file gives none; the reciprocal of its reference area in a buffered .diam file), whatever the order of rows and columns, the extra columns, the comments and the blank space. '
  'The area, and the perimeter where given, are the full values written in the file, in decimal or exponent notation, followed by a unit or not in the .scc case.',
  'all crater diameters, fractions, reference areas, areas and perimeters; row and column orders; number notations; file types .diam and .scc',
  'The tests read a handful of shipped files in one column order and one number notation.',
  ['Cratercount.py', 'gm/file/read_textstructure.py'],
  [('ReadDiamFile', 'Cratercount.py'), ('ReadSCCfile', 'Cratercount.py'), ('evaluate/simple_value', 'gm/file/read_textstructure.py')])

p('P02', 'Binning counts every crater exactly once, and cumulative counts are suffix sums',
  'Whatever the diameters, area fractions and binning style, every crater falls into exactly one bin whose limits contain it (lower limit included), so the event counts add up to the number of craters and the weighted counts to the sum of the fractions. '
  'The cumulative counts of a bin are the sums over that bin and all larger ones, and with no binning each crater is its own entry, in increasing order with its own fraction.',
  'all lists of up to 4 craters with any diameters 100 nm .. 10000 km (including values exactly on bin limits) and fractions, all 7 binning styles',
  'Tests bin two sample files; losing a crater needs a diameter on or next to a bin limit.',
  ['Cratercount.py'], [('apply_binning', 'Cratercount.py'), ('generate_bins', 'Cratercount.py')])

p('P03', 'Bin limits follow the named series and enclose the requested diameters',
  'Bin limits generated for a set of diameters are consecutive members of the named series (ratio 2, root 2, fourth root of 2, 10 or 20 per decade, each passing through 1 km; or the 18-step pseudo-log decade), so binnings of different data share the same limits. '
  'Without expansion the first and last limit are the tightest series members enclosing the diameters (within the rounding margin of 0.23 %); with expansion the limits also enclose every diameter strictly below the last limit.',
  'all diameter sets spanning any range between 1e-7 and 1e4 km, all six binned styles, half-bin offset',
  'Tests compare a few generated series with stored numbers.',
  ['Cratercount.py', 'gm/maths/range.py'], [('generate_bins', 'Cratercount.py')])

p('P04', 'Plotted densities and error bars follow the definition of each presentation',
  'For every non-empty bin, cumulative plots show the cumulative count over area at the lower bin limit, incremental ones the count over area, Hartmann and R-plots the density normalised by bin width (times diameter and (root 2 - 1), and diameter cubed, respectively) and differential plots the width-normalised density divided by the binning-bias factor, all at the geometric bin centre. '
  'Each error is the shown density over the square root of the number of crater events behind the point, not of the fractional count (in differential plots, the density before the binning-bias factor).',
  'all counts, fractional counts, areas and bin limits; all five presentations; with and without a production function',
  'Tests compare one or two stored curves per presentation where fractional and event counts coincide.',
  ['Cratercount.py', 'miscellaneous.py'], [('getplotdata', 'Cratercount.py'), ('bin_bias_correction', 'miscellaneous.py')])

p('P05', 'Diameter limits given as numbers or bin references decode to what they name',
  'A numeric limit is used as given when snapping is off and otherwise moves outward to the enclosing bin limits, by less than one bin, staying put when it already is a bin limit (a lower limit below the data moves to the first bin limit); an upper limit beyond the data stays unlimited and a reversed pair collapses onto its lower member. '
  'A limit b1, b2, ... selects the first, second, ... non-empty bin and b-1, b-2, ... count from the last (a reference beyond the ends means the end bin), so that the decoded range encloses exactly the named bins.',
  'all numeric limits, all bin references between -n and n, all occupancy patterns of up to 6 bins, snapping on or off',
  'Tests decode a few ranges on one data file.',
  ['Cratercount.py'], [('decode_range', 'Cratercount.py')])

p('P06', 'A diameter range selects exactly the bins inside it, and counts what it shows',
  'With a diameter range, the plotted and fitted points are exactly the non-empty bins whose centre lies strictly inside the range (all bins below the upper limit when all corrected points are requested); the reported number of craters and of events are the sums over exactly those bins. '
  'The reported bin range is the tightest pair of bin limits enclosing the requested range, with 0 standing for the smallest bin and infinity for the largest.',
  'all ranges, all counts of up to 5 bins, all presentations',
  'The tests use two ranges on sample files.',
  ['Cratercount.py'], [('getplotdata', 'Cratercount.py')])

p('P07', 'All forms of a polynomial production function describe the same curve',
  'For a polynomial production function the cumulative form is ten to the polynomial in log10 of diameter with the constant term replaced by the requested one (any number, zero included), the differential form is minus its derivative, the R form is the differential times diameter cubed and the Hartmann form the differential times diameter times the width of a centred root-2 bin. '
  'Adding to the constant term scales every form by the same power of ten, and without a requested term the published coefficients are used unchanged.',
  'all coefficient lists up to degree 4 and the shipped functions, all diameters in range, all constant terms',
  'Tests evaluate shipped functions at a few diameters; the special constant term 0 is never used.',
  ['Productionfn.py', 'gm/maths/poly.py'], [('evaluate', 'Productionfn.py'), ('polynomial_F', 'Productionfn.py')])

p('P08', 'All forms of a tabulated production function describe the same table',
  'A tabulated root-2 incremental production function reproduces its table: cumulative values at the bin limits are sums of the remaining entries normalised to 1 at 1 km, Hartmann values at bin centres are the entries themselves, both interpolated linearly in log-log space between; differential and R forms are consistent with each other and with the bias-corrected entries. '
  'Every form scales by a power of ten with the requested constant term, and the log form is the logarithm of the linear form.',
  'all positive tables of up to 6 entries with any 1 km index, all diameters within the table, all constant terms',
  'Only the one shipped table is tested at some diameters.',
  ['Productionfn.py'], [('hartmann_calc', 'Productionfn.py')])

p('P09', 'Chronology: rate is the slope of the curve, and age inverts density',
  'The accumulated density is zero at present and strictly increasing with age; the formation rate shown and used for weighting is its derivative with respect to age at every age. '
  'Converting a density (or its logarithm) back to an age inverts the curve to within the resolution of its 1000-step table, never decreases as the density increases, stays between 0 and 5 Ga, and the plotted series are the curve or its rate at the plotted ages. Every chronology of the shipped configuration can be used.',
  'all ages 0..5 Ga, all coefficient sets with non-negative terms and every shipped chronology',
  'Tests check stored values at a few ages.',
  ['Chronologyfn.py'], [('N1/a0/phi/t', 'Chronologyfn.py')])

p('P10', 'Fitted model densities are the least-squares constant term with one-sigma limits',
  'Fitting a production function to a selection of points changes nothing but the constant term, recovers it exactly for points lying on a scaled production function, is the least-squares optimum in log space otherwise (points weighted by their density in cumulative fits and by their error in differential ones), and shifts by log10(f) when all densities are scaled by f. '
  'The lower and upper limits bracket the best value and correspond to the density of the first point minus and plus 0.98 of its error (for the lower limit an error beyond the density counts as the density); ages and N(d) quoted for the fit are the chronology age and cumulative density at those constant terms.',
  'all point sets of up to 3 points, any densities, errors and diameters, cumulative and differential fits, single values',
  'Tests fit two sample files.',
  ['Productionfn.py', 'Craterplot.py'], [('fit', 'Productionfn.py'), ('calculate_age', 'Craterplot.py')])

p('P11', 'Poisson ages use the craters in the half-open range and their expected number',
  'The number of craters entering a Poisson age is the number of diameters d with lower limit <= d < upper limit (the events of the bins wholly inside the range for binned data), independent of binning and fractions, with the range clipped to the validity range of the production function. '
  'The expected number is the production function\'s cumulative difference over the range times the area, proportional to the accumulated density for each age; in the buffered case the integral over diameter of the differential production times area + d*perimeter/2 + pi d^2/4.',
  'all crater lists up to 4 craters (also on the limits), ranges, areas, perimeters and binned tables of up to 4 bins',
  'Tests use a single range on one file, with no crater on a limit.',
  ['Craterpdf.py', 'Craterplot.py'], [('__init__', 'Craterpdf.py'), ('calculate_age', 'Craterplot.py')])

p('P12', 'The age probability distribution is normalised and its percentiles are ordered',
  'The probability density of a Poisson age is the Poisson likelihood of the count times the formation rate, normalised so that it integrates to 1 over all ages, and its cumulative distribution is non-decreasing and ends at 1. '
  'Percentile ages invert the cumulative distribution and are ordered lower <= median <= upper, using the Gaussian one-sigma fractions, and forced or degenerate distributions remain normalised.',
  'all likelihood values, rates and age grids of up to 6 samples; all counts; all percentile fractions',
  'Tests compare a few percentile ages.',
  ['Craterpdf.py', 'gm/maths/poisson.py'], [('__init__/t/cumulative_fraction/median1sigma', 'Craterpdf.py')])

p('P13', 'The resurfacing correction is one offset that puts the largest bin on the fit',
  'With resurfacing correction the cumulative densities of all shown points are the uncorrected ones plus one common offset, for which the fit to the corrected points in the range passes through the point of largest diameter to within the tolerance at which its repetition stops; with a single point, and without the correction, the offset is zero. '
  'Counts, diameters and the uncorrected presentations are unaffected by the correction, and showing all points changes the points shown, not the offset.',
  'all cumulative densities of up to 3 bins; correction off, on, show-all',
  'One sample is tested.',
  ['Cratercount.py'], [('resurf_adj', 'Cratercount.py'), ('getplotdata', 'Cratercount.py')])

p('P14', 'Isochrons are the production function at an age, cut at equilibrium',
  'A plotted production-function curve covers the requested diameter range clipped to the function\'s validity range and equals the function at each of its points; the isochron of an age uses the constant term of that age. '
  'With an equilibrium function, exactly the isochron points below 80 % of the equilibrium density at the preceding tabulated diameter (the first, below the table) are kept, in order and unchanged.',
  'all constant terms, ranges and (for the cut) all equilibrium coefficients',
  'Isochrons are only drawn, never checked.',
  ['Productionfn.py', 'gm/idl/value_locate.py'], [('getplotdata/getisochron', 'Productionfn.py')])

p('P15', 'Epoch limits are the model ages of their defining crater densities',
  'An epoch system given by densities places each limit at the chronology age of the production function scaled to that density per million square kilometres at its reference diameter, keeps their order and starts at the present; one given by ages uses those ages. '
  'The formatting codes of an epoch system are decoded into colour, label side and boundary flag of each epoch in order.',
  'all densities, reference diameters and times; all formatting code strings over the documented letters',
  'Only shipped systems are constructed.',
  ['Epochs.py'], [('__init__', 'Epochs.py'), ('decode_formatting', 'Epochs.py')])

p('P16', 'Sequence probabilities of two surfaces are complementary',
  'The probability that one surface is older than another lies between 0 and 1, the two opposite orders add up to 1, a surface compared with itself (or an identical distribution) gives one half, and a distribution entirely older than another gives 1. '
  'The relative and cumulative probability read from a distribution are linear interpolations of it, and the probability ratio to the median is the ratio of the densities. The table of a sequence holds these probabilities for each pair in order, the median ages and their mean, and the share of the combined distribution of all surfaces, each moved to the mean age, that is less probable than the ages observed.',
  'all pairs of normalised distributions on a common age grid of up to 5 samples',
  'One pair of files is tested with a stored number.',
  ['Craterpdf.py', 'Craterplotset.py'], [('calculate_sequence_probability', 'Craterpdf.py'), ('create_sequence_table', 'Craterplotset.py')])

p('P17', 'The uncertainty grid evaluates each age and area node with its own crater count',
  'Every node of the uncertainty grid uses the expected number of craters of its own age and area, and records the sampled count, the relative one-sigma width and the ratio of recovered to true age of that very node; the grid axes run over exactly the plotted age and area ranges, with no node repeated or skipped. '
  'Undefined widths are recorded as 0 and undefined ratios as 1.',
  'all grid sizes up to 4 x 4, plot shapes, age ranges and sampled counts',
  'Only one figure is produced by the demo.',
  ['Craterplotset.py'], [('compute_age_area', 'Craterplotset.py'), ('calculate_time_axis_params', 'Craterplotset.py')])

p('P18', 'Formatted numbers, ages and ranges read back as the value they stand for',
  'A number, an age with its uncertainties, a density in scientific notation or a diameter range written for the reader equals the underlying value when read back with its unit and exponent, to the stated number of significant figures, sign and order of magnitude included. '
  'Ages choose the largest unit (Ga, Ma, ka, a) not exceeding the age, ranges below 1 km are written in metres, and percentiles near 100 keep as many significant figures of the distance to 100 as percentiles near 0.',
  'all values over 12 orders of magnitude (all rounding boundaries), 1 to 5 significant figures, both markup styles',
  'Tests format about ten values.',
  ['gm/string/sigfigs.py', 'gm/string/scientific_notation.py', 'miscellaneous.py', 'gm/string/diameter_range.py', 'gm/string/percentile_sigfigs.py'],
  [('sigfigs', 'gm/string/sigfigs.py'), ('str_age', 'miscellaneous.py')])

p('P19', 'A structured text file is read into exactly the keys, lists and tables it spells',
  'Reading a structured text yields every key with its value: plain values with surrounding space and matching quotes removed, bracketed lists element by element, tables column by column with each row\'s cells under their own headings, nested structures as such, and repeated keys as a list in file order. '
  'Comment lines, trailing comments and blank lines never change the values, and no key is lost or takes its value from a neighbour.',
  'all key names and values over a stated alphabet, 1..4 entries, in every arrangement of the five value kinds',
  'Tests read the shipped configuration.',
  ['gm/file/read_textstructure.py'], [('evaluate/merge/simple_value', 'gm/file/read_textstructure.py')])

p('P20', 'Splitting and comment removal respect quotes and lose nothing',
  'Splitting text into items separates at unquoted blanks only: a quoted item keeps its blanks and loses just its own quotes, unquoted items are unchanged, and joining the items with blanks and splitting again gives the same items. '
  'Removing trailing comments cuts at the first comment sign outside quotes and nowhere else; reading a text file returns each of its lines in order, dropping only the blank or comment lines it was told to drop and a leading byte order mark.',
  'all strings up to length 6 over an alphabet with quotes, blanks, separators, comment signs and letters',
  'Tests use three strings.',
  ['gm/string/quoted_split.py', 'gm/string/strip_quotes.py', 'gm/file/read_textfile.py'],
  [('quoted_split', 'gm/string/quoted_split.py'), ('read_textfile', 'gm/file/read_textfile.py')])

p('P21', 'Splitting a file name into path, name and extension is lossless',
  'Path, name and extension of any file name joined together give the file name back; the extension is a final dot with 1 to 4 word characters or empty, the name contains no path separator, and text inserted between the parts appears exactly there. '
  'This holds for names with spaces, dots, commas, dashes, equals signs, parentheses and other printable characters, and element by element for lists of names.',
  'all file names up to length 8 over letters, digits, dots, separators, blanks and punctuation',
  'Tests use five names.',
  ['gm/file/filename.py'], [('filename', 'gm/file/filename.py')])

p('P22', 'Each overplot specification sets its own fields, inherits only documented ones',
  'Each -p specification yields one overplot in order, with the given keys (in any order, abbreviated unambiguously) set to the given values, source, symbol, snapping, isochron, error bars, colour and binning carried over from the previous overplot when not given, and everything else at its default. '
  'The plot type is carried over while the source stays the same, and values containing commas or blanks stay whole.',
  'all combinations of given keys over 2..3 overplots, all orders of keys, all values of enumerated fields',
  'Tests run a few fixed command lines.',
  ['cli.py'], [('construct_plot_dicts', 'cli.py'), ('AppendPlotDict', 'cli.py')], over=('inputs', 'configurations'))

p('P23', 'An abbreviation resolves to an item with its letters in order, or is refused',
  'A name abbreviation resolves to a list item that contains its characters in order, case-insensitively; the shortest (then first) such item is chosen where ambiguity is allowed, ambiguity is otherwise refused, and an abbreviation matching nothing is refused or reported as absent. '
  'A full name always resolves to itself or an equal item, whatever punctuation it contains.',
  'all abbreviations up to length 4 over the letters and punctuation of the lists, all shipped lists and arbitrary short lists',
  'Tests try a few abbreviations.',
  ['cli.py'], [('decode_abbreviation', 'cli.py')])

p('P24', 'A saved command file reproduces the command that made it',
  'The .cs file written next to the output, read back as input, yields the same arguments, token for token, for every command line the program accepts. '
  'Comment lines and blank lines in such a file are ignored.',
  'all lists of up to 4 arguments of up to 5 characters each, over letters, digits, blanks, quotes, dashes, backslashes and punctuation',
  'Tests never read a saved command back.',
  ['cli.py'], [('main (cs_content)', 'cli.py'), ('LoadFromFile', 'cli.py')], over=('inputs', 'configurations'))

p('P25', 'Successive plots in one process do not influence each other',
  'Settings, formats, symbol sizes, crater data and functions used for one run, plot or crater count leave those of any other run, plot or crater count in the same process unchanged. '
  'Evaluating, plotting or fitting never modifies its inputs: source data, ranges, definitions and shared defaults stay as they were, and repeating a request gives the same answer.',
  'all sequences of up to 3 operations from the API over symbolic crater data and settings',
  'Each test runs on fresh objects.',
  ['cli.py', 'Craterplotset.py', 'Cratercount.py', 'Craterplot.py', 'Productionfn.py'],
  [('main (deepcopy of defaults)', 'cli.py'), ('apply_binning caching', 'Cratercount.py')], over=('histories',))

p('P26', 'Output goes to the requested or documented default file names and formats',
  'With an output name, files are written under that name with the extension of each requested format (a recognised extension in the name adds its format); with an existing directory, under the default name inside it; otherwise under the default name. '
  'The default name is the command file\'s name, else the sorted distinct source names joined (without the CRATER tag), else the chronology system with the presentation, or "out".',
  'all combinations of output argument, formats, presentations and up to 3 sources',
  'Tests use one output name.',
  ['cli.py'], [('set_default_filename', 'cli.py'), ('construct_cps_dict', 'cli.py'), ('write_output_files', 'cli.py')],
  over=('inputs', 'configurations'))

p('P27', 'The summary table has one correct row per age estimate',
  'The summary table lists exactly the age-estimating overplots in order, each row giving its own name, area, binning, diameter range, method, crater numbers, age with both limits, constant term with both limits and the density N(d_ref) with both limits at the reference diameter named in the heading. '
  'Every value stands in the column of its own heading whatever characters names and paths contain, each row ends with one blank closing column beyond the heading, and the sort order ranks the rows by decreasing age.',
  'all sets of up to 3 overplots of mixed types with symbolic results',
  'Two stored tables are compared.',
  ['Craterplotset.py'], [('create_summary_table', 'Craterplotset.py')])

p('P28', 'An exported binned table reads back as the same count',
  'A crater count exported as a .stat table and read back has the same non-empty bins with the same lower limits, counts, cumulative counts, event counts and area, to the printed number of digits, whatever comment or blank lines are added. '
  'Every printed density is the printed count over the area, each error the density over the root of the number of craters or events behind it.',
  'all crater lists of up to 3 craters with fractions and areas, all binning styles',
  'No test reads an exported table.',
  ['Cratercount.py'], [('WriteStatFile', 'Cratercount.py'), ('ReadStatFile', 'Cratercount.py')])

p('P29', 'Merging crater files keeps all craters, fractions and the total area',
  'Merging crater files writes one file that reads back with exactly the craters of all inputs, each with its own fraction, and the sum of the areas (and of the perimeters, where given), independent of the order of the inputs. '
  'It is written to the requested name or the sorted input names joined, with extension .diam, and binned inputs or a single input are refused.',
  'all pairs and triples of input files with up to 2 craters each, .diam and .scc, with and without perimeters',
  'No test merges files.',
  ['miscellaneous.py'], [('merge_cratercounts', 'miscellaneous.py')])

p('P30', 'Randomness results survive being written and read back',
  'A randomness-analysis file read back yields, for each measure, the same number of trials, the same bins and the same trial values in order (to the printed digits), and the n-sigma chart column of each bin and measure is that of the analysis, with gaps kept as gaps. '
  'A later run for the other measure keeps the stored one, and stored trials are reused only when they are at least as many as requested.',
  'all results with up to 3 bins, 2 measures, 3 trials and any values; missing bins',
  'Tests never reread a written file.',
  ['Randomnessanalysis.py', 'Cratercount.py'], [('write', 'Randomnessanalysis.py'), ('read', 'Randomnessanalysis.py'), ('run_montecarlo', 'Randomnessanalysis.py')],
  over=('inputs', 'histories'))

p('P31', 'Random placements and randomness statistics obey their definitions',
  'A random configuration has exactly the requested number of craters, all inside the counting area, none with its centre within half a diameter of a later one, drawn uniformly in area over the enclosing box. '
  'The k-th nearest neighbour distance of each crater is the k-th smallest distance to the other craters wherever they lie on the search grid, the measure is their mean, and n-sigma and percentile compare the observed measure with the mean, standard deviation and ranking of the trials. '
  'Trials share no random draws, however they are distributed over worker processes and whatever the number of processors. A request makes the number of trials asked for of every bin with enough craters, unless at least as many are stored.',
  'all distances between up to 4 craters, all grid assignments, all draws of up to 5 candidate points, all trial values',
  'The tests check one seeded run.',
  ['Randomnessanalysis.py'], [('sprinkle_discs_pp', 'Randomnessanalysis.py'), ('kth_nearest_neighbour_pp', 'Randomnessanalysis.py'), ('calculate_stats', 'Randomnessanalysis.py'), ('montecarlo_pp', 'Randomnessanalysis.py')],
  over=('inputs', 'schedules'))

p('P32', 'Automatic axes contain all data on whole decades with the right proportions',
  'In the data presentations automatic axis ranges start and end on whole decades, contain every plotted point of every overplot with the minimum margins, and give two density decades per diameter decade in differential plots and equal decades otherwise; a range set by the user is used unchanged. '
  'Tick values are equally spaced by 1, 2 or 5 times a power of ten, cover the data, and number at most the requested maximum (two ticks cannot enclose zero: then three). A time axis contains the requested times and labels only ticks that lie on it.',
  'all data extents over 12 decades, up to 3 overplots, all presentations; all tick ranges and maxima',
  'Plots are only drawn.',
  ['Craterplotset.py', 'gm/plotting/ticks.py'], [('autoscale', 'Craterplotset.py'), ('ticks', 'gm/plotting/ticks.py')])

p('P33', 'Boundary craters get the linear fraction of their overlap; rings stay intact',
  'The conversion from overlapping area fraction to linear fraction maps 0 to 0, one half to one half and 1 to 1, is increasing, and inverts the circle-segment area to within its table resolution. '
  'Craters read from a spatial file keep diameter, fraction and position together, and unit boundary rings keep their vertices and are treated as exterior or hole as tagged, at the given planetary radius.',
  'all area fractions; all spatial tables of up to 3 craters and 4 boundary rings with symbolic coordinates',
  'One shapefile pair is tested.',
  ['miscellaneous.py', 'Spatialcount.py'], [('fractional_crater_transform', 'miscellaneous.py'), ('readSCCfile', 'Spatialcount.py')])

p('P34', 'Legend entries state the counts, ranges and densities of their own overplot',
  'Each legend entry shows exactly the requested items of its own overplot: the crater number (with the number of events when area fractions make them differ), the diameter range actually used, the density N(d_ref) with limits, and for data the name, area and perimeter. '
  'It never fails for valid data, whichever file type the data came from.',
  'all counts, ranges and constant terms; all combinations of legend letters; all plot types',
  'Legends are only drawn.',
  ['Craterplot.py'], [('make_legend_label', 'Craterplot.py')])

p('P35', 'A spatial count written as .scc reads back with the same craters and area',
  'A spatial crater count written as an .scc file reads back with the same diameters, fractions, positions, planetary radius, area and perimeter to the printed digits, both as a spatial and as a plain crater count. '
  'Every boundary ring is written with all its vertices, the outer rings and holes of each part tagged as such.',
  'all counts of up to 3 craters and up to 3 rings with symbolic values',
  'One conversion is run and not reread.',
  ['Spatialcount.py', 'Cratercount.py'], [('writeSCCfile', 'Spatialcount.py'), ('readSCCfile', 'Spatialcount.py'), ('ReadSCCfile', 'Cratercount.py')])

p('P36', 'Shapefiles written for a spatial count carry its boundary and its craters',
  'Converting a spatial count to shapefiles writes one boundary shape per part of the unit with all its rings and vertices (outer rings clockwise, holes counter-clockwise, as the format demands) and one shape per crater: a closed rim whose vertices all lie at the radius of the crater from its centre, measured in an equal-area projection of the same planet centred nearby. '
  'Diameter and position are recorded with each crater, and both files state the planetary radius.',
  'all boundary rings of up to 3 parts with up to 2 holes drawn in either direction, all crater diameters and positions, three planetary radii',
  'One single-part unit is converted and the result is not examined.',
  ['Spatialcount.py'], [('writeSHPfiles', 'Spatialcount.py'), ('find_rims', 'Spatialcount.py'), ('polygon_to_pts', 'Spatialcount.py')])

p('P37', 'Every overplot is drawn at its own values, and appears in the legend',
  'In every presentation each visible overplot is drawn with its own symbol and colour at its own diameters and densities, with its own error bars if requested; an age estimate adds the production-function curve of its fitted constant term over its own range, the isochron if requested, and its own age with errors beside the curve. Hidden overplots draw nothing. '
  'Every overplot with legend items has one entry, in the order given. In a sequence plot each estimate has its own row, in order, with its name, age and one-sigma bar or probability outline. '
  'Chronology, rate, equilibrium, isochron and epoch graphics show the values of their functions and limits; isochrons carry their ages above or below the line, small or large, or not at all, as the suffixes of the list ask.',
  'all point values, errors, constant terms, ages and epoch limits; combinations of plot types, options, legends and presentations',
  'Tests compare finished images of a few sample plots at most.',
  ['Craterplot.py', 'Craterplotset.py', 'Craterpdf.py', 'Epochs.py'], [('overplot', 'Craterplot.py'), ('overplot_sequence_element', 'Craterplot.py'), ('draw', 'Craterplotset.py'), ('violin_plot', 'Craterpdf.py'), ('sequence_oplot', 'Epochs.py')])

p('P38', 'Uncertainty charts and age insets show the computed values on their scales',
  'Every node of the crater-number, uncertainty and measured/actual charts is drawn at its own age and area in the colour its scale gives to its value; missing values are left out. '
  'The part shaded as saturated is exactly the ages whose equilibrium density exceeds the limit, and that marked as larger than the globe exactly the areas above the global area. '
  'The time axis changes from linear to logarithmic at the stated age, both parts in the proportions used for the nodes. '
  'The inset of an age estimate shows its probability density over the age scale drawn beneath it, with its median and one-sigma range marked at their own ages.',
  'all node values, saturation ages, global areas and axis limits; sample sets of five magnitudes',
  'At most finished images of sample charts are compared.',
  ['Craterplotset.py', 'Craterpdf.py'], [('age_area_plot', 'Craterplotset.py'), ('calculate_time_axis_params', 'Craterplotset.py'), ('create_time_axis_plotspace', 'Craterplotset.py'), ('plot', 'Craterpdf.py')])

p('P39', 'Randomness charts and maps show the stored results',
  'The histogram of a bin counts every trial once, marks the value of the real craters and its percentile, the mean of the trials and the band of one standard deviation at their own values. '
  'In charts of all bins each bin stands at its centre and at its number of standard deviations, clustered below and separated above for either measure, with a gap where there is no value; above a plot they stand for every data set shown that has stored results, where asked for. '
  'A sheet of bins shows those selected, in order, each in a cell of its own with the map of its own craters, the lines to their neighbours or the adjacent areas, and its own histogram. '
  'A map shows every part and hole of the area and the rim of every crater within its frame at equal scales.',
  'all trial values and departures; 1 to 9 bins; all positions of craters; areas of several parts with holes',
  'The charts are only drawn, not read.',
  ['Randomnessanalysis.py', 'Craterplot.py', 'Spatialcount.py'], [('plot_histogram', 'Randomnessanalysis.py'), ('plot_n_sigma', 'Randomnessanalysis.py'), ('plot_montecarlo_split', 'Randomnessanalysis.py'), ('plot_map_and_histogram', 'Randomnessanalysis.py'), ('oplot_n_sigma', 'Craterplot.py'), ('plot', 'Spatialcount.py')])

p('P40', 'Options for the whole plot take effect as documented, and change nothing else',
  'Every option of the command line that concerns the plot as a whole (axis ranges, titles, legend and isochron lists, sizes, reference diameter, significant figures, axis style, ages of the uncertainty charts, flags) reaches the plot with the value given, wherever it stands among the others; a bare flag means on, 0 means off. '
  'Settings without an option have the documented default, for the presentation and the body of the chosen chronology system, whose own chronology and production functions are used; limits given by the user take precedence over automatic ones. '
  'An inverted plot uses the inverted palette throughout; transparency and tight framing reach the saved picture; the perimeter joins the area in legends with buffered counts. '
  'A randomness analysis runs the number of trials asked for, for each measure asked for, storing results after each, and shows the bins asked for in order.',
  'any values of the numbers and texts, all presentations, groups of options, bodies',
  'Options that are dropped or leak into other settings change published figures unnoticed.',
  ['cli.py', 'Craterplotset.py', 'constants.py'], [('construct_cps_dict', 'cli.py'), ('get_parser', 'cli.py'), ('main', 'cli.py'), ('write_output_files', 'cli.py'), ('UpdateSettings', 'Craterplotset.py'), ('ra_decode_selection', 'miscellaneous.py')])

p('P41', 'The axes of a chart have the scale, size, limits and labels they state',
  'Every chart has the axis limits asked for and the size asked for: centimetres per decade, with equal decades on both axes (differential charts: two of y to one of x), or the box given; square charts for the chronology, rate and Hartmann forms. '
  'Ticks stand at decades, powers of two or root-two bin edges within the limits, with labels and units that read back as the value at their position. '
  'Axis titles name the quantity, its unit, the reference diameter and whether the counts are equivalent to another binning; the title lines appear as split at `|`. '
  'A randomness sub-plot is aligned with the chart above the data and its range stated; bin boundaries are marked where they are; a map page has the size of the frame it is for.',
  'all limits and sizes within the stated ranges; all presentations, tick systems and styles',
  'A label at the wrong place misstates every value read from the chart.',
  ['Craterplotset.py', 'miscellaneous.py'], [('CreatePlotSpace', 'Craterplotset.py'), ('create_map_plotspace', 'Craterplotset.py'), ('Hartmann_bins', 'miscellaneous.py')])

p('P42', "The user's functions add to the installed ones, wherever they are defined",
  'The chronology systems, production, chronology and equilibrium functions and epochs available are all the installed ones, unchanged and in order, followed by all those of the file of user functions last set, in each kind of installation; every name appears in the list shown to the user. A file that is missing is named and ignored, and another can be set. '
  'A function is found by its exact name, whether its definition stands in a list already read, in a text or in a file, alone or among others, and has the values of that definition; an unknown name is refused.',
  'all values of the definitions, free names, 0 to 6 definitions of each kind, kinds of installation, layouts and paths',
  'The tests read the installed list only.',
  ['miscellaneous.py', 'Productionfn.py', 'Chronologyfn.py', 'Epochs.py', 'cli.py'], [('Functionslist', 'miscellaneous.py'), ('set_user_functions_config', 'miscellaneous.py'), ('__init__', 'Productionfn.py'), ('__init__', 'Chronologyfn.py'), ('__init__', 'Epochs.py')])

p('P43', 'The commands of a list are run one by one, each as if entered alone',
  'Running a list of commands, or the demonstrations, runs each command once and in order with exactly the words a shell would make of its line (quotes, blanks, empty words and # within words included) and nothing of the other commands. Blank lines, also of white space, and comment lines are no commands. '
  'A command that names no output gets one by its place in the list (NN-out, demo/NN-demo), so that no two results overwrite each other; one that names its own keeps it. When demonstrations are chosen by number, these are run, in the order given.',
  'all words of two free characters (letters, blanks, quotes, backslashes, punctuation), ten forms of command, lists of 0 to 14 commands',
  'No test runs a list of commands.',
  ['cli.py', 'gm/file/read_textfile.py'], [('source_cmds', 'cli.py'), ('demo', 'cli.py'), ('main', 'cli.py'), ('read_textfile', 'gm/file/read_textfile.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    try:
        import jsonschema
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for d in P:
            jsonschema.validate(d, sch)
        print(len(P), 'valid')
    except ImportError:
        print(len(P))
