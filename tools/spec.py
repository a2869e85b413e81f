"""The single place where the properties are written: regenerates properties.jsonl and MANIFEST.json.

Usage: python3 tools/spec.py"""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, U, O, T, S, I, UT = ('timeseria/' + f for f in ('datastructures.py', 'units.py', 'operations.py', 'transformations.py', 'storages.py', 'interpolators.py', 'utilities.py'))
MB, MF, MR, MA, P = ('timeseria/' + f for f in ('models/base.py', 'models/forecasters.py', 'models/reconstructors.py', 'models/anomaly_detectors.py', 'plots.py'))

PROPS = []


def prop(id_, title, statement, over, text, why, files, technique, note, symbols=None):
    PROPS.append(dict(id=id_, title=title, statement=statement, over=over, text=text, why=why, files=files, technique=technique, note=note,
                      symbols=symbols or []))


prop('C01', 'Series stay ordered, homogeneous and contiguous over every edit history',
     'After any sequence of append, insert, pop, remove, clear and duplicate calls, a series holds exactly the items a plain list would hold after the '
     'accepted ones: all of the same type and with the same data labels (or data length), points in strictly increasing order, slots each starting where '
     'the previous ends and, in a time series, all with the same unit and time zone. Every call that would break this is refused and leaves the series '
     'unchanged, and every other call on points (and any append or edit at the ends for slots) is accepted. pop() returns the item it removed.',
     ['histories', 'inputs'], 'All finite histories of edits, legal and illegal, over point and slot series, generic and temporal',
     'The tests check a handful of fixed appends and inserts; the invariant must survive every interleaving of edits and refusals.',
     [D], 'model-based (stateful) property testing against a list model, Hypothesis', 'Histories of up to 20 operations; numeric data; one zone per series.',
     ['Series', 'TimeSeries'])
prop('C02', 'Resolution depends on the content of a series, never on its history',
     'The resolution a time series reports is undefined for fewer than two points, "variable" if its points are not evenly spaced, their spacing otherwise, and '
     'the slot unit for slots; whatever sequence of edits, refused operations, duplications, slices or earlier readings led there, it equals that of a '
     'series freshly built from the same items. When variable, the guessed resolution is the most common spacing with a confidence within 0 and 1, and '
     'detecting it terminates on every series.',
     ['histories', 'inputs'], 'All edit histories and all spacings, interleaved with readings',
     'Tests read the resolution of freshly built series only; stale cached state needs a history to show.',
     [D, UT], 'model-based property testing: edited series vs freshly built one and vs a reference computed from the timestamps',
     'Timestamps are dyadic so that float spacings are exact.', ['TimeSeries', 'detect_sampling_interval'])
prop('C03', 'Access, slicing and views agree with the list of items',
     'Getting items by position (also negative), epoch or datetime, iterating, head, tail, contents and membership give exactly the items a plain list would give, and '
     'positions or times with no item raise an error. Slicing by positions follows list slicing, slicing by epoch or datetime gives the points in [from, to) '
     'and the slots entirely within [from, to], and mixing criteria is refused. A view shows exactly the portion of the series it was asked for, also when '
     'nested, operations on it give what they give on the items shown, and materialised views, duplicates, and copied or pickled series are as the original and leave it as it is. Summaries tell the first and last items allowed, in order.',
     ['inputs', 'histories'], 'All series, positions, times, zones, and (nested) view borders',
     'Tests use a few in-range positions on one series; borders out of range, between items and nested views are where slips hide.',
     [D, O], 'differential property testing against list semantics', 'Slicing steps other than one are outside the domain.',
     ['TimeSeries', 'TimeSeriesView', 'Slice', 'Get'])
prop('C04', 'Time units: exact physical arithmetic and correct calendar arithmetic',
     'Adding or subtracting a physical unit (seconds, minutes, hours) moves an epoch, datetime or time point by exactly its duration, while adding a calendar unit '
     '(days, weeks, months, years) moves the wall clock of its time zone across DST changes, refusing non-existent or ambiguous results, and keeps the '
     'time zone. The same unit given as string, number, value or components is equal and has the same duration, its string representation round-trips, and '
     'sums of units are componentwise. Floor, ceil and round land on the grid of the unit around the given time.',
     ['inputs'], 'All instants, zones and units', 'Tests try a few dates per unit; DST and calendar arithmetic must hold at every instant.',
     [U, UT], 'property testing against pytz/naive-datetime references', 'Calendar shifting itself is implemented by the propertime dependency.', ['TimeUnit', 'Unit'])
prop('C05', 'Points and slots keep their instant, extent and time zone consistent',
     'A time point created from an epoch, a datetime or another point, in any time zone (of any library, and whatever it is given as), denotes that instant, shows it on the wall clock of its zone (also when the zone is changed, '
     'which never moves it), and points are ordered by instant and equal exactly when instant and data are. A slot created from its start and its unit or end, '
     'in any supported way, has the corresponding end, length and unit, is equal to another exactly when borders and data are, and degenerate or '
     'zone-mismatched slots are refused. Consecutive calendar slots always share their borders, over DST changes and leap years, and thus fit in one series.',
     ['inputs'], 'All instants, zones, fixed and calendar units', 'Tests use single points and slots, mostly on UTC and away from DST changes.',
     [D, U], 'property testing against pytz references', 'Zones with whole-minute offsets.', ['TimePoint', 'DataTimePoint', 'TimeSlot', 'DataTimeSlot'])

prop('C06', 'Scalar operations agree with their definition',
     'The min, max, sum and avg of a series, of points or slots, temporal or generic, or of a view of it, are the minimum, maximum, sum and (time-equal weights) average of the data '
     'values it holds, for each of its labels; asked for one label they give the same value as for all, and as methods the same as functions. They leave the series '
     'unchanged, and are refused on empty series and on items without indexed data.',
     ['inputs'], 'All series, labels and views', 'Tests check a few short positive series; signs, single items, views and list data are where slips hide.',
     [O], 'property testing against Python builtins', 'User-defined scalar operations over several labels are outside.', ['Min', 'Max', 'Sum', 'Avg'])
prop('C07', 'Series operations agree with their definition, in place or not',
     'derivative, integral, diff, csum, mavg, normalize, rescale and offset compute, on every label separately, the values of their definition, keeping instants, time zones, slot extents '
     'and data indexes of the items they are computed for; integral of derivative and csum of diff give back the series. With inplace the series ends up with the same values, keeping '
     'its other labels, and operations that would change its length refuse it.',
     ['inputs'], 'All series, even and uneven, of one or more labels, with any parameter', 'Tests use one or two fixed series per operation, nearly always with one label.',
     [O], 'property testing against reference definitions, and metamorphic inverse relations', 'Constant series cannot be normalized; calendar slots csum offsets are refused.',
     ['Derivative', 'Integral', 'Diff', 'CSum', 'MAvg', 'Normalize', 'Rescale', 'Offset'])
prop('C09', 'Merging keeps exactly what series have in common',
     'Merging series of the same resolution gives exactly the items at the instants all of them cover, with all of their labels, each value (and data index) being the average over the series '
     'having it, in the time zone of the first. Series of different or variable resolution, or of different items, are refused, and the merged ones are left unchanged.',
     ['inputs'], 'All sets of aligned series over any windows of a timeline, with own or shared labels and indexes', 'Tests merge two fixed series covering the same window.',
     [O], 'property testing against a reference merge', 'Series aligned on the same timeline; at least two items each; dictionary data.', ['Merge'])
prop('C10', 'Filtering, selecting, renaming and removing touch only what they name',
     'Over any history of filtering, renaming and removing data labels and data indexes, and edits, a series holds exactly what plain dictionaries going through the same hold, and '
     'the labels it reports, and checks new items against, are always those of its items. Filtering gives an independent series, selecting by equality gives exactly the matching items in '
     'order, and unknown labels and unsupported queries are refused.',
     ['histories', 'inputs'], 'All histories of such operations', 'Tests apply each operation once, on a fresh series.',
     [D, O], 'model-based property testing against plain dictionaries', 'Selecting when nothing matches may give nothing rather than an empty series.', ['Filter', 'Select', 'TimeSeries'])
prop('C11', 'Resampling covers the grid and averages samples and interpolation',
     'Resampling a series of points, up or down, with any phase, gaps and jitter, gives one point for each instant of the epoch grid of the unit whose unit lies within the series, in the same time zone '
     'and with the same labels, whose values are the average over the unit of the samples (within their validity) and of their interpolation elsewhere. A series already on the grid comes back with '
     'the same values and no data loss, and calendar units or unsuitable series are refused.',
     ['inputs'], 'All series, phases, gaps, jitters, units and interpolators', 'Tests pin a few outputs, mostly of one regular sampling and one gap.',
     [T, I, O], 'property testing against an independent piecewise reference', 'Validity equals the sampling interval (given or detected).', ['Transformation', 'Resampler'])
prop('C12', 'Aggregation gives contiguous calendar-aligned slots with the right content',
     'Aggregating a series of points in a unit gives one slot for each unit of the grid (epoch for physical units, wall clock of the series time zone for calendar ones) between the first and the last '
     'point, or from the start and to the end requested, contiguous over gaps and DST changes. Each operation is computed over the samples of the slot (avg as a time-weighted average, '
     'including interpolated gaps; user-defined operations on the samples), and slots with no samples are interpolated or filled with the requested value.',
     ['inputs'], 'All series, units, time zones, DST changes, gaps, operations, starts and ends', 'Tests cover a few DST days and fixed operations; gaps and phases multiply.',
     [T, O, U], 'property testing against calendar and piecewise references', 'Sums over slots with an inner gap, and numeric borders for calendar units outside UTC, are outside.', ['Transformation', 'Aggregator'])
prop('C13', 'Data losses measure exactly what is missing',
     'Each resampled point or aggregated slot carries a data_loss equal to the fraction of its unit not covered by samples, plus the loss the samples already had, always within 0 (fully covered) '
     'and 1 (fully missing); other data indexes are the coverage-weighted average of those of the samples, and None where there are none.',
     ['inputs'], 'All gaps and phases', 'Tests pin the data losses of a few slots.',
     [T, UT], 'property testing against an interval coverage reference', 'Validity equals the sampling interval (given or detected).', ['Transformation', '_compute_coverage', '_compute_data_loss'])
prop('C08', 'Operations, transformations and conversions never alter or share what they are given',
     'Every operation, transformation, model application and conversion that is not asked to work in place leaves the series it is given exactly as it was (items, data, data indexes, time zone, '
     'resolution and labels), also when it fails. What it gives back is independent: changing the result, its items or their data never changes the original, and the other way round.',
     ['inputs', 'histories'], 'All series, operations and subsequent changes of either side', 'Tests rarely look at the input after a call, and never change the result to see what else changes.',
     [D, O, T], 'metamorphic property testing: snapshots before and after, then scrambling of one side', 'In-place operations are decided by C07.', ['Operation', 'Transformation', 'TimeSeries'])
prop('C14', 'Stored series load back as they were',
     'A series stored in a CSV file with any supported separator and encoding, or saved as JSON, and then loaded, has the same items: same instants, time zone (fixed offsets included), slots unit, labels, values and data indexes. '
     'Over any history of storing, overwriting and loading, a storage always gives what was last stored in its file, and refused storings (existing file, unsuitable labels or series) leave the file as it was.',
     ['histories', 'inputs'], 'All points and slots series, labels, values, indexes, formats and histories', 'Tests load a few fixed files and store one fixed series.',
     [S, D], 'round-trip and model-based property testing', 'Dictionary data with finite values, and named time zones.', ['CSVFileStorage'])
prop('C15', 'CSV files are read for what they contain',
     'Every well formed line of a CSV file, in any of the supported dialects (separators, newlines, headers, comments, timestamp columns and formats, time zones, decimal commas), gives the item at its instant with '
     'its values, in order, and lines which cannot be read are either refused or, when skipping errors, skipped. Files of daily, monthly or yearly timestamps give calendar slots, and filling the missing '
     'ones gives contiguous slots where the present ones are unchanged and the missing ones are linearly interpolated and fully lost.',
     ['inputs'], 'All such files', 'Tests read a few fixed files, one dialect each.', [S], 'property testing: files generated from a known content', 'Missing or nan values are outside; units of gappy or '
     'DST-crossing monthly data must be given.', ['CSVFileStorage'])
prop('C16', 'Dictionaries, JSON and data frames convert back and forth faithfully',
     'Converting a series to a dictionary, to JSON or to a data frame, and back, gives the same instants (down to the microsecond), data and slots, and for dictionaries and data frames the same time zone. '
     'Dictionaries and JSON with any supported keys and values give exactly the items they describe, in order, and data frames of any frequency give the rows as points, or as slots of the right unit if '
     'daily, monthly or yearly; keys which are not times or are out of order, and slots without a frequency, are refused.',
     ['inputs'], 'All series, dictionaries and data frames', 'Tests convert a few hourly or daily series on UTC, with one set of labels.', [D, UT],
     'round-trip property testing, and property testing against the frames and dictionaries generated', 'JSON does not carry the time zone, thus not for calendar slots outside UTC; data frames of end-of-period frequencies are outside.',
     ['TimeSeries'])
prop('C17', 'Changing the time zone only changes the wall clock',
     'Moving a series to another time zone, in place or as a copy, any number of times, never moves an instant or a slot extent and never changes data, data indexes or resolution: only the wall clocks and the time zone change, '
     'on the series and on all of its items. A moved series behaves exactly as the one created on that time zone in the first place, for every operation, calendar aggregation, conversion and storage. '
     'Copies leave the original on its time zone, unknown time zones are refused without changes, and series with mixed time zones are on UTC until moved.',
     ['inputs', 'histories'], 'All series, time zones and histories of changes', 'Tests change the time zone of one series once.',
     [D, UT], 'model-based and differential (against the natively built series) property testing', 'Named time zones.', ['TimeSeries'])
prop('C18', 'Models only work once fitted, and only on what they were fitted for',
     'Whatever the history of fits (also failed ones), uses and savings, a model which is not fitted refuses to be used or saved (NotFittedError), and a fitted one refuses, with the documented exception and with no changes, '
     'what is not a time series (TypeError) and series which are empty, of variable or other resolution, or with other data labels (ValueError). On any other series it gives what a model '
     'just fitted gives, wherever the series is in time, in whatever order its labels are, and leaving it unchanged. Models without parameters have nothing to fit or save, and savings never touch an existing path.',
     ['histories', 'inputs'], 'All models, histories and series', 'Tests try one unsuitable series per model, right after the fit.',
     [MB, MF, MR, MA], 'stateful property testing against freshly fitted models, with built-in and custom models', 'Models needing TensorFlow cannot run here, and ARIMA cannot be fitted with the statsmodels installed; the shared machinery is decided with the others.',
     ['Model', 'Forecaster', 'Reconstructor', 'AnomalyDetector'])
prop('C19', 'Saved models load as they were',
     'A model loaded from where it was saved gives, for every method and every series, exactly what the saved one gave at the time of saving, has the same identifier, data labels and resolution, and refuses the same series. '
     'Saving and loading, any number of times and also of what was loaded, change neither the model nor what is already saved, and later fits of either never affect the other. '
     'This includes the models within anomaly detectors, and the series pre-processed by the one for the other.',
     ['histories', 'inputs'], 'All models, parameters, resolutions, labels and histories of fitting, saving and loading', 'Tests load one model of each kind, and compare one prediction at most.',
     [MB, MF, MR, MA], 'stateful differential property testing: loaded against saved, with built-in and custom models', 'Auto-ARIMA is a known finding; ARIMA and Keras models cannot be fitted here. The window given when creating a forecaster is not a parameter of a loaded one.',
     ['Model', 'PeriodicAverageForecaster', 'PeriodicAverageReconstructor', 'ModelBasedAnomalyDetector', '_ProphetModel'])
prop('C20', 'Forecasts continue the series with what the model predicts',
     'Applying a forecaster gives the items of the series, unchanged, followed by exactly as many forecast items as asked, contiguous, on the unit, time zone and labels of the series and marked as such, each holding what the '
     'model predicts, the same in place or not, at once or in more goes; context is required if and only if it was fitted with. Periodic average forecasters predict, for each label and wherever they are used, '
     'the average of the items of the fit with the same phase (on the wall clock if DST affected) and with no excessive data loss, moved to the level of the window; Prophet and Auto-ARIMA ones predict what their libraries do.',
     ['inputs'], 'All series, periodicities, windows, steps, resolutions, time zones and data losses', 'Tests compare a few forecasts of one series of temperatures, mostly from the very series of the fit.',
     [MF, MB, UT], 'property testing against reference models (per-phase averages, the libraries), and metamorphic relations',
     'The window offset of periodic averages is a known finding (both the right value and the recorded defect are accepted). Keras and ARIMA models cannot run here.', ['Forecaster', 'PeriodicAverageForecaster', 'ProphetForecaster', 'AARIMAForecaster'])
prop('C21', 'Reconstructors only change what is missing, and according to their model',
     'Applying a reconstructor replaces the data of the items with a data loss not below the threshold, and of no others, with what the model predicts for them, keeping everything else (items, data losses, unit, time zone) and marking what was '
     'reconstructed; the source series is left unchanged. Linear interpolation gives, for each label, what is on the segment between the two items around the gap; periodic averages give the average of their phase plus '
     'the average difference around the gap; and gaps at the start or end, where there is nothing to start from, are refused.',
     ['inputs'], 'All series, gaps (number, length, position, loss), thresholds, periodicities, resolutions and time zones', 'Tests reconstruct a couple of gaps of a series of temperatures.',
     [MR, MB, UT], 'property testing against reference models, with custom models and metamorphic relations (straight and periodic series come back)', 'Gaps are those after resampling or aggregating, or given as data losses.',
     ['Reconstructor', 'LinearInterpolationReconstructor', 'PeriodicAverageReconstructor'])
prop('C22', 'Evaluations measure what the model does with the past only',
     'Each metric of an evaluation, overall and per label, is that of its definition computed on the actual items and on what the model predicts for them when given only what comes before (for forecasters) '
     'or only what is around the gap made at their place (for reconstructors): changing the actual item being predicted never changes its prediction. The series with the results holds exactly the actual values, the predicted ones and '
     'their errors, and neither the series nor the model are changed.',
     ['inputs'], 'All models, series, metrics, windows, limits and steps', 'Tests compare the metrics with numbers once obtained from the same code.',
     [MF, MR, MB, UT], 'differential property testing against separate predictions on truncated series and metrics by definition',
     'One step ahead for forecasters. Context data with the item to predict in it is a known finding.', ['Forecaster', 'Reconstructor', 'mean_absolute_percentage_error'])
prop('C23', 'Cross validations never fit on what they evaluate on',
     'In each of the rounds of a cross validation the model is evaluated on the next len/rounds items, and is fitted before on the larger of the two parts of the series around them (and updated on the other one, if it can be), '
     'never on the items it is evaluated on. The results are the average and the standard deviation, for each metric, of what separate models give when fitted and evaluated by themselves on those parts, with all the parameters '
     'forwarded where they belong; unknown parameters and fitted models are refused, and the series is left unchanged.',
     ['inputs', 'histories'], 'All models, series, numbers of rounds, windows and parameters', 'Tests compare the scores of one cross validation per model with recorded numbers.',
     [MB, MF, MR], 'property testing with recording models, and differential testing against separately fitted and evaluated models', 'At least two rounds, of at least two items each.', ['Model'])
prop('C24', 'Anomaly indexes grade prediction errors as documented',
     'An anomaly detector compares each item (of each data label) with what its model, fitted on the same series, predicts for it from the items around it, and fits the distribution of the errors. When applied, each item for which a prediction can be made gets the anomaly index '
     'its error deserves: zero within the first index bound, one beyond the second, and in between along the scale of the index type, on either side of the center of the distribution, multiplied or not across data labels as asked by the strategy; the others have an undefined index. '
     'Thresholds, details and pre-processings (whatever changed after them) change nothing else, indexes are always between zero and one, farther errors never have lower indexes, and what happens after an item never matters to detectors based on forecasters. The source series is left unchanged.',
     ['inputs', 'histories'], 'All detectors, metrics, distributions, bounds, index types, thresholds, strategies and details, on all series', 'Tests check rounded indexes for a few recorded series.',
     [MA, MB, UT, MF, MR], 'property testing against a reference model which fits and predicts separately, and metamorphic testing', 'Numeric data on dict series; distributions which are symmetric and not degenerate; custom models supply predictions in all of the supported ways.', ['ModelBasedAnomalyDetector', 'DistributionFunction'])
prop('C25', 'Anomaly events are the long enough groups of anomalous items',
     'When anomaly events are marked on a series with anomaly indexes, the items from the first to the last of each maximal group of anomalous ones (with an index not below the threshold), with gaps not above the maximum one, are marked if they are at least as many as the minimum persistence, and no other item is; '
     'anything else in the series is unchanged, wherever the groups are, also at the ends of the series.',
     ['inputs'], 'All series with anomaly indexes (also undefined), thresholds, persistences and gaps', 'Tests check a couple of recorded series.',
     [MA], 'property testing against a declarative definition of events', 'Up to some tens of items per series.', ['ModelBasedAnomalyDetector'])
prop('C27', 'Error metrics, rescaling, periodicities and distributions do what their definitions say',
     'Error metrics match their definitions on any pair of lists. Rescaling is linear, maps interval ends on interval ends and can be reverted. The periodicity of a periodic series is found, whatever its period, unit, time zone, position, scale, level and form. Distribution functions fitted on data match the standard definition of '
     'their distribution, are between zero and one when they are adherences, and finding the value with a given adherence or fraction of the peak is the inverse of computing it. Shell commands give back their output and exit code.',
     ['inputs'], 'All values, intervals, periods and distributions', 'Tests check single values, and one detected periodicity.',
     [UT], 'property testing against independent definitions, inverse and metamorphic relations', 'Periodicities are looked for on at least three periods.', ['detect_periodicity', 'rescale', 'DistributionFunction', 'os_shell'])
prop('C28', 'Plots show the items of the series at their wall clock time',
     'The page a series is plotted in runs, and gives to the plotting library one row per item (or per group of items, if aggregated) with the wall clock time in the time zone of the series, the values of the data and the data indexes asked for in the columns labelled after them, and the mark on the times it was asked for. '
     'Plotting never changes the series, and unknown labels, indexes or options are refused.',
     ['inputs'], 'All series, time zones (and DST changes), labels, marks and plotting options', 'Tests only check that plots are produced.',
     [P, D], 'property testing: the generated Javascript is executed and its rows compared with the series', 'Images and notebook display are not covered; with two decimals unless full precision.', ['dygraphs_plot'])
prop('C29', 'Neural network models learn and use the right windows, on the right scale',
     'What an LSTM forecaster gives its network to learn are the requested features (values, differences, hours of the day in the time zone of the series) of each window of consecutive items without lost ones, plus those of the context at the time of the target if asked for, and the values of the targets right after; normalized between '
     'zero and one per data label, if so asked, by the last fit. What it forecasts is what the network outputs for the features of the last window of the series, back on the original scale, for the targets, right after the series; the same holds once saved and loaded, and for the anomaly detectors based on it. Source series are left unchanged.',
     ['inputs', 'histories'], 'All series, windows, features, targets, contexts, limits of data loss and normalizations', 'Tests need TensorFlow and compare a few rounded forecasts.',
     [MF, MB, MA], 'property testing with a recording stand-in for Keras, against features computed independently', 'Keras is not available offline: the network is replaced with a known linear function. Windows of at least two items, labels which are not constant.', ['LSTMForecaster'])
prop('C26', 'Interpolators stay within, and agree with, their neighbours',
     'Linear interpolation at an instant gives, for each label, the value on the segment between the previous and the next item, and uniform interpolation the average of the two, whether the neighbours are given '
     'or looked up, and evenly spaced or not. Instants outside them are refused, and the series is left unchanged.',
     ['inputs'], 'All series, instants and neighbours', 'Tests evaluate a couple of instants.', [I], 'property testing against the definition', 'Series of at least two points.',
     ['LinearInterpolator', 'UniformInterpolator'])
prop('C30', 'Results depend on what is given only, not on the process they are computed in',
     'Building, reading, storing, converting, transforming, plotting and modelling series, and time arithmetic, give the same for the same arguments in every process: whatever the time zone of the system, the locale (and its encoding), the hash seed, the working directory, the optimization and the logging level, and '
     'whatever was done before in the same process. This includes naive dates and times, which never are on the time zone of the system, files, which never are in the encoding of the locale, and the order of labels and columns. After ensure_reproducibility() random draws repeat as well, and the logger is set up once, '
     'and at another level only if forced to.',
     ['inputs', 'histories', 'configurations'], 'All series, files, texts, dates and times, units and models, in any process and order', 'Tests run in one process, on UTC and UTF-8.', [D, S, U, UT, P],
     'differential property testing between processes in different environments', 'Environments: five time zones, UTF-8 and ASCII locales, five hash seeds, two directories, optimized or not, critical or debug logging. Random identifiers are ignored.', ['TimeSeries', 'CSVFileStorage', 'TimeUnit', 'ensure_reproducibility', 'dygraphs_plot'])

prop('C31', 'What becomes of a label depends on its values only',
     'Whatever is done with a series (operations, transformations, conversions, storing, interpolating, forecasting and reconstructing), what comes out for a data label depends on the values of that label only: it is the same with any number of other labels or alone, whatever the labels are called, and in whatever order they are '
     'in each item. It does not depend on the unit the values are in either (multiplying them by a power of two gives results multiplied by exactly as much, or the same if normalized), nor on where in the calendar cycle of 28 years the series is (in UTC), be it before or after the epoch. '
     'What was computed for the first items of a series is still so when the series goes on, for as long as it does.',
     ['inputs'], 'All series with any number of labels, of any length, at any scale and place in time', 'Tests use one or two labels, a few items and recorded numbers.', [D, O, T, I, MF, MR, MA],
     'metamorphic property testing', 'Operations which use the whole series by definition (as normalize) are not asked for the last sentence; resampling and aggregating may change the last two items, and derivatives the last one. Anomaly detectors may mix labels.', ['TimeSeries', 'derivative', 'Aggregator', 'Resampler', 'Interpolator', 'PeriodicAverageForecaster', 'LinearInterpolationReconstructor'])


def where(symbol, files):
    repo = os.environ.get('REPO', '/repo')
    for f in files:
        with open(os.path.join(repo, f)) as h:
            text = h.read()
        if 'class {}('.format(symbol) in text or 'def {}('.format(symbol) in text:
            return f
    raise ValueError('{} not found in {}'.format(symbol, files))


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HOME, 'checks')) if f.startswith('c') and f.endswith('.py')}
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': where(n, p['files'])} for n in p['symbols']],
                                            'observe_at': ['public Python API'], 'hook_needed': None}}) + '\n')
    checks, missing = [], []
    for p in PROPS:
        if p['id'] in built:
            checks.append({'property': p['id'], 'quick_cmd': 'bash run.sh {} quick'.format(p['id']), 'thorough_cmd': 'bash run.sh {} thorough'.format(p['id']),
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            missing.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')})
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': missing,
                   'notes': 'No hooks in /repo are needed. Generated by tools/spec.py.'}, f, indent=1)
        f.write('\n')


NOT_APPLICABLE = {}

if __name__ == '__main__':
    main()
