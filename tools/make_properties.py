#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json
import os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=['src/seismic/' + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=None)))
    assert len(title) <= 80, (id, len(title))


p('C01', 'The correlation database is an exact map over any history',
  'After any history of adding, removing, reopening and reading, the correlation database returns for every key (tag, station pair, channel pair, time window) exactly the samples and header of the first correlation stored under that key since it was last removed. Adding under an occupied key alters nothing that is stored (it warns and skips just that correlation); removing deletes exactly the requested correlations and nothing else. Every key that was stored stays retrievable by its own names, whatever the station and channel codes are.',
  ['histories', 'inputs'],
  'all sequences of add (single or batch, with duplicate keys) / remove (exact time or time pattern) / close and reopen / get, over all station, channel and tag codes including codes that are prefixes of one another',
  'The unit tests mock the HDF5 file and check one call at a time; no test stores, removes and re-reads through a real file, so no history is ever exercised.',
  ['db/corr_hdf5.py', 'correlate/stream.py'],
  [('DBHandler.add_correlation / get_data / remove_data', 'src/seismic/db/corr_hdf5.py'),
   ('hierarchical path tag/network/station/channel/start/end', 'src/seismic/db/corr_hdf5.py')],
  [('db', 'map key -> (data, header)', 'HDF5 file')],
  ['return of CorrelationDataBase handler methods', 'h5py view of the file'])
p('C02', 'A database file never silently mixes different processing parameters',
  'Once a correlation file has been written with a set of processing parameters, opening it with a set that differs in any result-relevant parameter is refused with an error and changes nothing in the file, unless different parameters are explicitly allowed; the parameters recorded in the file are always those of its first writer. Sets that differ only in bookkeeping (read window, paths, which combinations are requested, recombination and deletion flags, when to preprocess, time-masking steps) are accepted. A read-only opening, or one without parameters, never modifies the file.',
  ['histories', 'configurations'],
  'all sequences of openings of one file with any mode, any parameter set and either force setting',
  'Tests compare two hand-written dictionaries with a mocked file; they do not vary which parameter differs, the number of masking steps, or the order of openings.',
  ['db/corr_hdf5.py'],
  [('parameter comparison on opening', 'src/seismic/db/corr_hdf5.py: DBHandler.__init__, co_to_hdf5')],
  [('co', 'parameters of the first writer', 'attribute of the co dataset')],
  ['exception of the context manager', 'file content before/after'])
p('C03', 'Database listings and wildcard queries return exactly what matches',
  'Listing channels or window start times, and fetching with "*" for whole fields or with given start and end times, return exactly the stored correlations that match: none missing, none extra, whatever other pairs, channels, tags or windows are in the file. A pair may be named in either order with the same result. A request for something that is not stored gives an empty answer or a key error, never other data.',
  ['inputs', 'histories'],
  'all database contents and all queries over them, including codes that are prefixes or suffixes of one another',
  'Tests check the pattern string handed to a mocked helper, not which correlations come back from a populated file.',
  ['db/corr_hdf5.py', 'correlate/correlate.py'],
  [('fnmatch pattern on the dataset path', 'src/seismic/db/corr_hdf5.py: get_data, all_traces_recursive'),
   ('listing of group keys', 'src/seismic/db/corr_hdf5.py: get_available_starttimes, get_available_channels'),
   ('find_existing_times', 'src/seismic/correlate/correlate.py')],
  (), ['returned CorrStream / dict'])
p('C04', 'Correlation runs are resumable: rerun computes exactly what is missing',
  'Running the correlation again on a database that already holds part of the result (an earlier run, a shorter period, fewer stations, or a run that died at any write) adds exactly the missing correlations, recomputes none that are stored, leaves every stored one unchanged, and ends with the same correlations as a single uninterrupted run. This holds for every combination method and for all station codes.',
  ['crash_points', 'histories', 'configurations'],
  'all points at which a run may stop, all sequences of runs over growing periods or station sets, all combination methods',
  'Tests call the pair selection with a hand-made dictionary of existing times and mock database and files; no test runs the correlator twice on a real project or stops it midway.',
  ['correlate/correlate.py', 'db/corr_hdf5.py'],
  [('existing-times lookup', 'src/seismic/correlate/correlate.py: find_existing_times, _compare_existing_data'),
   ('write after each read increment', 'src/seismic/correlate/correlate.py: pxcorr, _write')],
  [('db', 'stored correlations', 'HDF5 files'), ('pending', 'computed but unwritten', 'cst in pxcorr')],
  ['content of the HDF5 files after each run', 'warnings about omitted data sets'])
p('C05', 'Exactly the requested station/component pairs are correlated, each once',
  'For every set of available channels and every combination method, the correlations produced for a time window are exactly the pairs the method and the requested combinations call for (between different stations, between components of one station, auto, all simple, all), each unordered pair stored once; a requested combination is honoured whichever order it is written in and whether or not it names channels. Pairs whose window is already stored are left out, and only those.',
  ['inputs', 'configurations'],
  'all sets of channel codes, all five methods, all requested-combination lists, all sets of already stored windows',
  'Tests count combinations for one or two fixed streams; they do not enumerate code sets with shared prefixes, swapped requests or partially existing data.',
  ['correlate/correlate.py'],
  [('pair enumeration', 'src/seismic/correlate/correlate.py: calc_cross_combis, is_in_xcombis, compute_network_station_combinations, Correlator._filter_by_rcombis')],
  (), ['returned list of index pairs', 'pairs stored in the database'])
p('C06', 'Pair order is canonical; swapping the stations mirrors the lag axis',
  'A correlation of A with B and one of B with A get the same canonical pair name, and the stored samples and lag axis are mirror images of each other so that a physical delay is stored with the same sign either way. The lag of the first and last sample are consistent with the sample interval and sample count. All stages (naming, lookup of existing results, retrieval) use one and the same canonical order.',
  ['inputs', 'configurations'],
  'all pairs of network/station/channel codes (including codes that are prefixes of others) and all start lags, in both input orders',
  'Tests use one or two code pairs and mock the pieces around; the symmetric-lag case hides mistakes in the lag axis of swapped pairs.',
  ['correlate/stream.py', 'correlate/correlate.py', 'db/corr_hdf5.py'],
  [('alphabetical_correlation, combine_stats', 'src/seismic/correlate/stream.py'),
   ('sort_comb_name_alphabetically, _pxcorr_inner', 'src/seismic/correlate/correlate.py')],
  (), ['header and samples of stored correlations'])
p('C07', 'Results do not depend on the number of parallel processes',
  'Correlating or monitoring with any number of parallel processes terminates without deadlock and yields the same stored results as with one process: every trace, pair, file and channel is handled by exactly one process, also when there are more processes than stations, pairs or files, or when some process finds no data in a window.',
  ['schedules', 'configurations', 'inputs'],
  'all process counts and all distributions of (missing) data over the processes, all interleavings of the processes between collective operations',
  'The test suite runs with a single process and mocks the communicator.',
  ['correlate/correlate.py', 'monitor/monitor.py'],
  [('block map of work items to ranks, collective exchange', 'src/seismic/correlate/correlate.py: _generate_data, _pxcorr_matrix, _write; src/seismic/monitor/monitor.py')],
  [('owner', 'process that handles an item', 'pmap')],
  ['HDF5/npz files written', 'sequence of collective calls per process'])
p('C08', 'Every correlation uses exactly its own time window of data',
  'For every reading schedule and availability of data (late starts, early ends, gaps, missing stations), the correlation labelled with a window start at read start + i * read increment + j * window increment is computed from exactly the samples of both stations in that window of the configured length; all windows of the schedule in which both have enough data are produced, and no others. Missing data of one station never shifts, drops or contaminates windows of other stations.',
  ['inputs', 'configurations'],
  'all read lengths/increments, window lengths/increments, and all patterns of available data per station',
  'Tests use full-length synthetic streams for one schedule, or mocks; they never compare which samples went into which labelled window under gaps.',
  ['correlate/correlate.py', 'utils/miic_utils.py'],
  [('sliding of windows, trimming and padding', 'src/seismic/correlate/correlate.py: _generate_data, generate_corr_inc, preprocess_stream')],
  (), ['corr_start/corr_end and peak lag of stored correlations for coded input data'])
p('C09', 'Selecting and stacking correlations partitions them by id and time',
  'Selecting correlations by time window, time of day or excluded instants returns exactly those the documented rule names. Stacking puts every correlation into exactly one stack, never mixes different network, station, channel (and, if asked, location) combinations or different stacking windows, and each stack is the (duration-weighted or plain) mean of its members without missing samples, scaled to unit maximum, labelled from its earliest start to its latest end. The input order of the correlations makes no difference.',
  ['inputs', 'histories'],
  'all collections of correlations (ids, times, lengths, order), window lengths and selections',
  'Tests use short regular sequences in time order with one or two ids.',
  ['correlate/stream.py'],
  [('select_corr_time, select_time, pop_at_utcs, slide, stack', 'src/seismic/correlate/stream.py')],
  (), ['returned CorrStream'])
p('C10', 'Resampling in time averages exactly the correlations of each bin',
  'Resampling a correlation matrix to given time bins yields, for every bin, the mean of exactly those correlations whose start lies in the half-open bin, and an all-NaN row for an empty bin, with the bin times as the new times. Overlapping, adjacent, unordered or empty bins and NaN rows are all handled; a bin whose correlations are all NaN stays NaN. In the same way a reference trace is the mean or median of exactly the correlations of its reference window that have data.',
  ['inputs'],
  'all correlation times (including equal and boundary ones), all bin lists and explicit or implied bin ends',
  'Tests use one regular sequence and one regular bin list.',
  ['monitor/post_corr_process.py', 'correlate/stream.py', 'monitor/monitor.py'],
  [('corr_mat_resample', 'src/seismic/monitor/post_corr_process.py')],
  (), ['data and stats of the CorrBulk'])
p('C11', 'Correlation matrix and its metadata stay consistent under any operations',
  'After any sequence of operations on a correlation matrix (trimming, mirroring, time slicing, indexing, resampling, splitting into single correlations, rebuilding, copying, saving and loading), every row still carries exactly the time, location and channel labels of the correlation it came from, every column the lag it came from, and the counts and lag bounds in the header equal the shape of the data. Trimming keeps exactly the samples in the requested lag range; mirroring averages sample pairs of equal absolute lag. Operations never change objects they are not applied to (slices of rows are views on the data, copies are not).',
  ['histories', 'inputs'],
  'all sequences of operations and their arguments',
  'Each operation is tested alone on random data with regular labels; sequences of operations are never tested.',
  ['correlate/stream.py', 'monitor/trim.py', 'monitor/post_corr_process.py'],
  [('CorrBulk operations', 'src/seismic/correlate/stream.py'), ('corr_mat_trim', 'src/seismic/monitor/trim.py'), ('corr_mat_mirror', 'src/seismic/monitor/post_corr_process.py')],
  [('rows/cols', 'provenance of every cell', 'CorrBulk.data/.stats')],
  ['data and stats after each operation'])
p('C12', 'Correlation headers keep their derived fields consistent at all times',
  'After any sequence of assignments to a correlation header, sampling rate and sampling interval are inverse to each other, the last lag equals the first lag plus (number of samples - 1) sampling intervals, the start and end times of the first correlated trace mirror corr_start and corr_end, and derived fields cannot be set directly. Copying or writing and re-reading a header preserves every field.',
  ['histories', 'inputs'],
  'all sequences of assignments to header fields in any order',
  'Tests assign one field at a time to a default header.',
  ['correlate/stats.py', 'correlate/stream.py'],
  [('CorrStats.__setitem__', 'src/seismic/correlate/stats.py')],
  [('header', 'dict of header fields', 'CorrStats')],
  ['header fields after each assignment'])
p('C13', 'Averaging velocity-change curves averages exactly the eligible curves',
  'Averaging a set of velocity-change results gives at every time the NaN-ignoring mean over exactly the eligible members: results that are themselves averages or whose shape or stretch axis differs from the first are left out with a warning, and mixing different methods is an error. The result reports how many members contributed, its value is the axis point of maximum mean similarity, it does not depend on the order of the members, its inputs are left unchanged, and the memory-saving variant gives the same answer. Restricting by coordinates uses exactly the curves with both stations inside the box. Smoothing in time replaces each similarity by the mean of those in its window; correcting the offset of a result only moves its similarities along the stretch axis.',
  ['inputs'],
  'all multisets and orders of result objects with NaN patterns, shapes, methods and coordinates',
  'Tests average two random matrices with no partial NaN and mock the averaging for the coordinate filter.',
  ['monitor/monitor.py', 'monitor/dv.py'],
  [('average_components, average_components_mem_save, average_dvs_by_coords', 'src/seismic/monitor/monitor.py')],
  (), ['returned DV'])
p('C14', 'Folder-wide component averaging groups every result exactly once',
  'Averaging all velocity-change files of a project writes one average per station pair with at least two results of the kind asked for; it contains exactly the files of that pair (all its components), never files of other pairs or earlier averages; re-running it writes nothing new and leaves all files as they are. This holds whatever the station codes or the folder are called and in whatever order the files are listed.',
  ['inputs', 'histories', 'configurations'],
  'all sets of result files, directory names, and repeated invocations',
  'Tests do not run the folder-wide averaging on real files.',
  ['monitor/monitor.py'],
  [('Monitor.compute_components_average', 'src/seismic/monitor/monitor.py')],
  (), ['files in the dv directory'])
p('C15', 'Bulk monitoring covers exactly the selected data and isolates failures',
  'Monitoring a project processes exactly the station pairs and channels that the configured network and station selection names, each exactly once, and a failure in one of them does not prevent the results of the others. The time grid has one window per increment from start to end (end exclusive), each of the configured length.',
  ['inputs', 'configurations', 'fault_sequences'],
  'all sets of correlation files, all selections (single, list, wildcard), any subset of failing channels, all time grids',
  'Tests mock globbing with two file names and never run the bulk loop over several channels with failures.',
  ['monitor/monitor.py'],
  [('corr_find_filter, make_time_list, Monitor.compute_velocity_change_bulk', 'src/seismic/monitor/monitor.py')],
  (), ['files in the dv directory', 'returned lists'])
p('C16', 'Saved results read back identical',
  'A velocity-change result, correlation matrix or coherence result that is saved and loaded again is equal in data, axes and all header fields (times, coordinates, processing information), for any number of windows, including one, and with or without optional arrays and averages. Saving twice or re-saving a loaded result changes nothing.',
  ['inputs', 'histories'],
  'all result objects (sizes including 1, optional fields present or not, NaN) and repeated save/load cycles',
  'Tests mock numpy saving or check a single fixture.',
  ['monitor/dv.py', 'correlate/stream.py', 'monitor/wfc.py', 'utils/miic_utils.py'],
  [('save/read functions, header conversion', 'src/seismic/monitor/dv.py, src/seismic/utils/miic_utils.py')],
  (), ['loaded object'])
p('C17', 'The local waveform archive never loses or invents data',
  'After any history of storing and fetching waveforms, reading from the local archive returns for any channel and time span exactly the samples that were stored for it; storing data again or in pieces across calls never loses stored samples. Data found locally is not requested again from the remote service, missing data is, and only data that was fetched is written; a read-only archive never writes. Listings of stations, wildcards and inventories reflect exactly what is stored.',
  ['histories', 'inputs', 'fault_sequences'],
  'all sequences of fetch/store calls over any spans (crossing midnights, partial overlaps, gaps, remote failures) and channel codes',
  'Tests mock both the archive and the remote client and make one call.',
  ['trace_data/waveform.py'],
  [('Store_Client', 'src/seismic/trace_data/waveform.py')],
  [('archive', 'samples per channel and time', 'SDS folder')],
  ['returned Stream', 'files in the archive', 'calls on the remote client'])
p('C18', 'Gap handling and masking touch exactly the samples they should',
  'Masking time intervals hides exactly the samples inside the union of the intervals (ends between two samples reach to the enclosing samples; tapers only around them) and no others; interpolation fills exactly the gaps up to the maximum length; discarding short or invalid traces removes exactly those; dropped amplitude or marked data never spreads to other traces of the stream. Samples outside are returned unaltered with correct times.',
  ['inputs'],
  'all traces (length, gaps) and all interval lists (adjacent, overlapping, covering, outside, unordered)',
  'Tests use a single mask or gap in the middle of one trace.',
  ['utils/miic_utils.py', 'correlate/preprocessing_stream.py'],
  [('mask, gap and trace filters', 'src/seismic/utils/miic_utils.py, src/seismic/correlate/preprocessing_stream.py')],
  (), ['returned Stream'])
p('C19', 'Velocity and shift estimates report the true best match of each row',
  'For every correlation matrix, the reported similarity of each row with each tested stretch or shift is the normalised correlation over exactly the selected lag window (left, right, both or single side), the reported value is the tested value of maximum similarity and the reported coherence that maximum. Rows are independent: permuting, removing or adding rows changes nothing for the others, and rows without data give NaN instead of a value. A row that is an exactly shifted copy of the reference gets exactly that shift; a copy of the reference gets zero change.',
  ['inputs'],
  'all matrices, reference traces, windows and sides within integer-valued data',
  'Tests use one sine-like reference and the default window.',
  ['monitor/stretch_mod.py', 'monitor/post_corr_process.py'],
  [('velocity_change_estimate, time_shift_estimate, time_stretch_estimate, time_shift_apply', 'src/seismic/monitor/stretch_mod.py')],
  (), ['returned dictionaries'])
p('C20', 'Waveform coherence is grouped and averaged over exactly its members',
  'Waveform coherence of a correlation matrix against its references is the normalised correlation over exactly the selected lag window for every row and reference; its time average ignores NaN and uses every reference, and bulk results group coherences by their own window start, length and frequency band with each member in exactly one group. Components are averaged only within one station pair. Reference traces are the requested average (mean, median, normalised mean, or the most similar ones) of exactly the correlations of their time window.',
  ['inputs'],
  'all matrices, reference sets, windows, frequency bands and their order',
  'Tests use a constant matrix and mocks.',
  ['monitor/wfc.py', 'monitor/stretch_mod.py', 'monitor/monitor.py'],
  [('WFC, WFCBulk, compute_wfc', 'src/seismic/monitor/wfc.py, src/seismic/monitor/stretch_mod.py')],
  (), ['WFC/WFCBulk values'])
p('C21', 'Matrix preprocessing treats every trace independently',
  'Every time- and frequency-domain preprocessing step gives each trace the same result whether it is processed alone, together with other traces, or in another order; sign-bit, zero padding, muting and clipping change exactly the samples their rule names and keep all others. Traces without data stay without data and never affect others.',
  ['inputs', 'configurations'],
  'all matrices of traces, all steps and parameters, all orders and subsets of rows',
  'Tests process one or two random traces together and check one global property.',
  ['correlate/preprocessing_td.py', 'correlate/preprocessing_fd.py'],
  [('TD/FD preprocessing functions', 'src/seismic/correlate/preprocessing_td.py, preprocessing_fd.py')],
  (), ['returned matrices'])
p('C22', 'Spatial inversion solves the stated inverse problem for any set of curves',
  'The spatial velocity-change grid obtained from a set of station-pair curves is the minimiser of the stated regularised least-squares problem over exactly the curves with a usable value at the nearest window, with the error of each datum and the correlation of the cells as stated; resolution, forward model and sensitivity kernels follow from the same geometry (kernels move and turn with the stations, vanish outside of the single-scattering ellipse). It does not depend on the order of the curves, on curves without data at that time, on former uses of the grid or on whether stations are given in geographic or local coordinates; the input curves stay unchanged, except that an alignment shifts each curve once, to its own value of the forward model.',
  ['inputs', 'histories'],
  'all station geometries, curves, windows, damping parameters and sequences of calls on one grid',
  'Tests check one geometry with mocks.',
  ['monitor/spatial.py', 'monitor/dv.py'],
  [('DVGrid', 'src/seismic/monitor/spatial.py')], (), ['returned grid', 'curves', 'kernels'])
p('C23', 'Filters, tapers and spectral operations are numerically accurate',
  'Filtering, whitening, tapering, resampling and envelope computation match their mathematical definition to floating-point accuracy for all inputs.',
  ['inputs'], 'all real-valued inputs and filter parameters',
  'Tests check selected signals with tolerance.',
  ['correlate/preprocessing_td.py', 'correlate/preprocessing_fd.py', 'monitor/post_corr_process.py'],
  [('numerical routines', 'src/seismic/correlate, src/seismic/monitor')], (), ['returned arrays'])

p('C24', 'Post-processing of correlation matrices keeps the lag axis and acts row by row',
  'Clipping, smoothing, filtering, enveloping, normalising, tapering, correcting the decay of, and resampling or decimating the lag axis of a correlation matrix gives each row the same result whether it is processed alone, together with other rows, or in another order. Every operation changes exactly the samples its rule names; after each step and any sequence of steps the header tells the true lag of every sample and the number of samples and rows, and an arrival stays at its lag.',
  ['inputs', 'configurations', 'histories'],
  'all matrices, lag axes, parameters and sequences of steps',
  'Tests process random or constant matrices with one set of parameters and compare with the same formula.',
  ['monitor/post_corr_process.py', 'correlate/stream.py'],
  [('corr_mat_*', 'src/seismic/monitor/post_corr_process.py'), ('CorrBulk', 'src/seismic/correlate/stream.py')], (), ['matrices and headers after each step'])

p('C25', 'Spectrograms hold one column per complete window, made of its own data only',
  'The windows of a spectrogram have the requested length and follow one another, from the first sample of each block of data that is read and inside the requested times. A window gets a column iff all of its samples exist; the column is the spectrum of these samples alone, the times increase, and a block that cannot be processed loses its own windows only. The result does not depend on the number of processes nor, for data without gaps, on the increment the data is read with; there is a result on the first process and an error only if no window can be computed.',
  ['inputs', 'configurations', 'schedules'],
  'all archives, gaps, requested times, window lengths, read increments, numbers of processes',
  'Tests compute one spectrogram of one stream with mocked communication.',
  ['utils/raw_analysis.py', 'trace_data/waveform.py'],
  [('spct_series_welch', 'src/seismic/utils/raw_analysis.py'), ('Store_Client.compute_spectrogram', 'src/seismic/trace_data/waveform.py')], (), ['times, frequencies and columns of the spectrogram'])

p('C26', 'Stitching velocity-change curves moves each by whole steps onto earlier ones',
  'Correcting the offset of a velocity-change curve relative to another one measures the difference of their (correlation-weighted) means or medians over the times at which both have data and the given number of times around these, or across the gap between them; if the gap is larger or there is nothing to compare this is refused and the curve stays as it is. The curve moves as a whole, by the number of steps of its axis that comes closest, together with its similarities; the other curve, the correlations and the times without data stay. In a list, each curve is corrected once, relative to the (corrected) curves that come before it in time, whatever the order of the list, and the average of corrected curves is the average of what they have become.',
  ['inputs', 'configurations', 'histories'],
  'all sets of curves, gaps, overlaps, offsets, methods and orders of the list',
  'Tests shift one curve by one step and mock the correction of lists.',
  ['monitor/monitor.py'],
  [('correct_dv_shift', 'src/seismic/monitor/monitor.py'), ('correct_time_shift_several', 'src/seismic/monitor/monitor.py'), ('average_components', 'src/seismic/monitor/monitor.py')], (), ['values and similarities after the correction'])

p('C27', 'Reading from any file structure returns exactly the samples in the files',
  'A request to a file-system client returns exactly the stored samples of the requested channel from the first to the last requested time, with their values and times, whether the files hold hours, days, months, years or everything, whatever directories and file names the structure descriptor describes (parts of the id in upper or lower case, replacements, parts of dates), across the ends of months and years, gaps and missing files, and if the data of a section begins in the file before. Without trimming it returns at least these, and nothing that is not stored.',
  ['inputs', 'configurations'],
  'all file structures, trees of files, gaps and requested times',
  'Tests do not read from file structures.',
  ['trace_data/waveform.py'],
  [('read_from_filesystem', 'src/seismic/trace_data/waveform.py'), ('_adjacent_filepattern', 'src/seismic/trace_data/waveform.py'), ('FS_Client', 'src/seismic/trace_data/waveform.py')], (), ['returned stream'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
print(len(P))
