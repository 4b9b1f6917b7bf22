"""Writes known_findings.json from the table below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, start of the commit message, what failed)
FIXED = [
    ('C01', 'fix: order station pairs by network',
     'Pairs were stored in the order of the concatenated codes but looked up in the order of the dotted codes: A.BC.Z-AB.A.Z could not be fetched or removed under its own name, and existing correlations were not found (also C04, C06).'),
    ('C03', 'fix: database requests with wildcards',
     'get_data(A-B, *) also returned A-BC; a start time given with wildcard channel also matched an end time; the order of the pair was not normalised with wildcard channel; tag * hit the options dataset; remove_data treated ? as * (also C01).'),
    ('C03', 'fix: list available data',
     'get_available_starttimes(*) raised KeyError if the combination is not in the file; so did find_existing_times when the file of A-A.S-S10 exists and A-A.S-S1 is asked for; channels without any data were listed.'),
    ('C02', 'fix: ignore all masking steps',
     'Only every other of several adjacent stream_mask_at_utc steps was ignored in the comparison of parameters.'),
    ('C04', 'fix: no incomplete records',
     'An exception while the header (or the options) is written left a dataset without it, which could not be read and was never computed again.'),
    ('C03', 'fix: start times for channel codes',
     'get_available_starttimes with the wildcard ? returned nothing.'),
    ('C06', 'fix: lag of the last sample',
     'The end lag of a new correlation was one sample too large.'),
    ('C08', 'fix: stack exactly the correlations',
     'The first correlation of a read window was stacked with those of the read window before (also C09).'),
    ('C07', 'fix: a channel that cannot be processed',
     'A channel whose sampling rate is too low or whose preprocessing fails ended the read window on its process only: all its other channels were lost and the other processes waited forever.'),
    ('C18', 'fix: detrending and tapering keep',
     'detrend_st / cos_taper of a trace with masked ends trimmed it, so that its data moved in time.'),
    ('C08', 'fix: windows start at the read start',
     'With preprocess_subdiv the windows were counted from the first available sample instead of the read start.'),
    ('C05', 'fix: requested combinations in any order',
     'A requested combination B-A or one with channels was not honoured when stations are filtered and existing data are looked up.'),
    ('C07', 'fix: same number of correlation windows',
     'Samples off by a fraction of the interval gave one window more on the process that reads them: deadlock.'),
    ('C04', 'fix: resume after a failure while writing the first',
     'A run that died while writing the options left a file that later runs could not open, or an empty start group that was listed as existing.'),
    ('C04', 'fix: stacks of read windows that were already',
     'After a resumed run the stack of the read window held only the new correlations, or was missing.'),
    ('C06', 'fix: correlations with an odd number',
     'With an odd number of samples after zero padding the correlation was computed one sample too short: wrong lags (also C08).'),
    ('C09', 'fix: stacks reach to the latest end',
     'A stack of correlations of different duration ended with its last start instead of the latest end.'),
    ('C09', 'fix: samples without data in stacks',
     'Weighting by length counted the duration of correlations whose sample is NaN.'),
    ('C09', 'fix: correlations across midnight when selecting',
     'select_time dropped correlations that reach over midnight; seconds with a fraction raised an error.'),
    ('C11', 'fix: error for a correlation matrix without',
     'An empty time slice raised an error without meaning.'),
    ('C11', 'fix: trimming labels the samples',
     'The lag of trimmed samples was off by a sample if the requested start falls between two samples.'),
    ('C11', 'fix: mirroring of lags that are not',
     'Mirroring put samples of different absolute lag together if lags are not exact multiples of the interval in floating point.'),
    ('C10', 'fix: labels and count of the rows of a resampled',
     'Resampling kept location, channel and ntrcs of the original rows (also C11).'),
    ('C11', 'fix: taper the center of matrices that',
     'taper_center raised an error on one-sided (mirrored, trimmed) matrices.'),
    ('C11', 'fix: index a correlation matrix with numpy',
     'Indexing with a numpy integer returned a one-dimensional matrix with wrong counts.'),
    ('C10', 'fix: resample a correlation matrix without',
     'Resampling an empty slice raised an error.'),
    ('C10', 'fix: median reference traces',
     'One correlation without data made the median reference trace all NaN.'),
    ('C13', 'fix: averages of velocity changes with partly',
     'With similarities that are NaN for some stretches only, the reported value was at a NaN (taken as 0) if all others are negative, and the memory-saving average divided by the wrong number; results whose codes contain "av" (station cave) were taken for averages; an average in the first place set the shape and labels; geographical averages could not be given to average_dvs_by_coords; smoothing and shifting invented values for times without data.'),
    ('C13', 'fix: use all common samples to correct the shift',
     'The last common sample was not used; a single common sample gave no shift at all.'),
    ('C11', 'fix: reloaded correlation matrices',
     'A saved and reloaded matrix could not be sliced, resampled or split (its stats were a plain dict), and with one row its times were no list (also C16).'),
    ('C07', 'fix: waveform coherence with several',
     'All processes wrote every average of the waveform coherence to the same file at the same time; component results were lost if a process other than 0 came first.'),
    ('C14', 'fix: group velocity changes by their own',
     'Results of pairs whose code begins with that of another pair (S1-S1, S1-S10) or of pairs of different networks with the same station codes went into the average of another pair; "av" anywhere in the path (folder save) or in a code hid all results; glob characters in folder names; membership depended on the order of the listing.'),
    ('C16', 'fix: reading results with a single time',
     'A velocity change or coherence result with one time was read with a scalar time; with an open lapse window it could not be read; sides, aligned and the coherence parameters came back as arrays.'),
    ('C15', 'fix: find the correlations of all requested',
     'With a list of networks the list of stations was ignored; with a list, pairs of two different listed codes (S1-S2) were never monitored; folders whose name contains glob characters were empty.'),
    ('C15', 'fix: velocity changes with an open lapse',
     'tw_len None (documented) raised a TypeError; a window that is too long raised an UnboundLocalError instead of its message.'),
    ('C15', 'fix: failures with one correlation do not end',
     'One unreadable correlation file ended every bulk computation; one failing combination ended the bulk computation of the waveform coherence.'),
    ('C16', 'fix: scatter and counts of a read result',
     'After reading, the header of a velocity change with n_stat, corrs or stretches held their first values as fields; read_wfc did not accept ?.'),
    ('C17', 'fix: store waveforms with gaps',
     'Remote data with gaps could not be stored (NotImplementedError or lost samples), traces of one sample were not stored.'),
    ('C17', 'fix: keep the known channels',
     'The inventory file of a station was replaced by that of the channel fetched last; read-only clients wrote it too.'),
    ('C17', 'fix: listings of an archive',
     'Directories that are not years raised NameError/SyntaxError in get_available_stations; empty station directories raised IndexError in _get_times.'),
    ('C17', 'fix: samples at the edge of a file',
     'FS_Client lost the sample at the request end if a file starts or ends there.'),
    ('C18', 'fix: correlations do not use masked data',
     'Data hidden by stream_mask_at_utc was correlated nevertheless: the assignment to the matrix ignores the mask.'),
    ('C18', 'fix: mask intervals that cover',
     'An interval that covers a whole trace masked nothing; one that only touches the first or last sample neither.'),
    ('C18', 'fix: tapers of integer data',
     'Tapers of integer traces were truncated to zero.'),
    ('C18', 'fix: interpolation of traces without data',
     'interpolate_gaps raised ValueError for a trace without data and filled the ends of integer traces with the smallest integer.'),
    ('C18', 'fix: interpolate gaps between',
     'gap_handler did not interpolate gaps between the traces of a channel, which is how data with gaps are read.'),
    ('C07', 'fix: spectral whitening with traces without',
     'A zero in the spectrum of one trace (no data, no mean) left all traces of the same process unwhitened, so results depended on the number of processes (also C21).'),
    ('C07', 'fix: data with a lower sampling rate',
     'A change of the sampling rate within a read window ended the run (merge raised a plain Exception) or let samples of another rate be correlated.'),
    ('C21', 'fix: mute with tapers of any length',
     'mute silenced whole traces for some numbers of samples of the taper (1, 6, 7, ...) and, for even numbers, left a part of the samples above the threshold.'),
    ('C21', 'fix: detrend with method scipy',
     'detrend with method scipy always raised a TypeError.'),
    ('C21', 'fix: zero padding to avoid wrap around with float',
     'zeroPadding avoidWrapAround raised a TypeError for float sampling rates.'),
    ('C21', 'fix: zero phase filters of matrices',
     'TDfilter with zerophase ran the second pass over the traces in reverse order: each trace was filtered with a phase shift.'),
    ('C21', 'fix: sign bit normalization of spectra of an odd',
     'FDsignBitNormalization inverted spectra of traces of an odd number of samples to one sample less.'),
    ('C07', 'fix: joint normalization on several processes',
     'joint_norm failed or normalised other sets of three traces if run on several processes.'),
    ('C21', 'fix: zero padding for lags of a fractional',
     'The padding was one sample too short for lags of a fractional number of samples.'),
    ('C19', 'fix: stretch and shift estimates leave',
     'corr_mat_stretch and corr_mat_shift trimmed the header of the matrix in place; a reference without own header was then compared at wrong lags (also C11).'),
    ('C19', 'fix: stretch references about zero',
     'An untrimmed reference was stretched about its first or central sample instead of zero lag (single sides, asymmetric lags).'),
    ('C19', 'fix: use each lag once to',
     'measure_shift counted zero lag (or all lags) twice for both sides.'),
    ('C19', 'fix: refuse time windows that start',
     'Windows reaching beyond the first sample silently used samples from the other end of the trace.'),
    ('C19', 'fix: no stretch for rows without data',
     'With several references rows without data got the stretch -stretch_range instead of NaN.'),
    ('C19', 'fix: use the first of several',
     'Several time windows ended a stretch estimate with an IndexError.'),
    ('C19', 'fix: combine several references',
     'A matrix of one row and several references ended with a ValueError.'),
    ('C19', 'fix: correct the shift or stretch of a single',
     'Correcting the estimated shift (or stretch) of a matrix of one row ended with an IndexError.'),
    ('C19', 'fix: several references for a single correlation without',
     'A matrix of one row without data and several references ended with a TypeError.'),
    ('C22', 'fix: sensitivity kernels on grids',
     'Grids with a spacing like 0.1 or 0.3 were refused (ValueError) in the inversion because cell distances are no exact multiples of the spacing in floating point.'),
    ('C22', 'fix: align velocity change curves',
     'align_dvs_to_grid shifted each curve to the forward value of another curve if one did not enter.'),
    ('C22', 'fix: keep local and geographic coordinates',
     'Stations were listed in another order by geographic than by local coordinates.'),
    ('C22', 'fix: processing parameters shared between',
     'DV objects made from one dictionary of parameters shared it: aligning one marked all as aligned, so that the others were never aligned.'),
    ('C22', 'fix: refuse points north of the grid',
     'Points north or west of the grid were accepted and attributed to cells of its border.'),
    ('C24', 'fix: taper the center of matrices symmetrically',
     'A short center taper muted the sample at -width/2 but not the one at +width/2.'),
    ('C24', 'fix: correct the decay of one-sided',
     'The decay of an acausal side was fitted with the wrong sign of lag and doubled instead of corrected.'),
    ('C24', 'fix: smooth the ends of traces',
     'The reflected copies at the ends were off by a sample (bent ends); a window as long as the trace raised an error.'),
    ('C24', 'fix: normalize matrices over the requested',
     'The normalisation window was off by a sample if lags are no exact multiples of the interval in floating point, and counted from the end if it ends before the trace starts.'),
    ('C24', 'fix: clip matrices with rows without',
     'One row without data turned the whole matrix to NaN (axis 0 or None).'),
    ('C24', 'fix: taper the center of matrices without',
     'slope_frac 0 raised an error; widths were two samples too long for inexact products.'),
    ('C27', 'fix: read files of adjacent months',
     'Requests that started on the 29th to 31st of a month raised an error (day is out of range) if the next or former month was needed.'),
    ('C27', 'fix: look for the files of adjacent years',
     'Instead of the next year, the former one was read (and the other way round), without end; an error on February 29.'),
    ('C27', 'fix: read from file structures without',
     'UnboundLocalError if the structure has no time and the file does not cover the request.'),
    ('C27', 'fix: replace parts of the id',
     'The documented replacements (%CHA(\'BH\',\'\')) were never made: no data.'),
    ('C27', 'fix: look for the first sample in the file before',
     'A single sample missing at the start of a request was not looked for in the preceding file.'),
    ('C25', 'fix: end spectrograms at the requested',
     'The last read block of a spectrogram went beyond the requested end: windows that were not asked for.'),
    ('C25', 'fix: read whole windows',
     'The read increment was not rounded to whole windows: the data at the end of each block was left out.'),
    ('C25', 'fix: no spectra of windows with gaps',
     'Windows with gaps had spectra made of what lies below the mask (values of masked samples).'),
    ('C25', 'fix: collect the spectra of all',
     'Without data on the first process there was an UnboundLocalError or ValueError, though others had spectra; windows of processes were mixed up.'),
    ('C24', 'fix: decimate to sampling rates',
     'Integer fractions of the sampling rate that are not exact in floating point were resampled (other filter, other number of samples) instead of decimated.'),
    ('C16', 'fix: skip all damaged files',
     'read_dv with wildcards raised an error if one of the files was empty, no archive or lacked an array.'),
    ('C20', 'fix: average waveform coherences with different numbers',
     'components with different numbers of references: only those of the first were averaged, or KeyError'),
    ('C20', 'fix: reference trace of a single or of equally',
     'similarity_percentile of a single or of equal correlations: reference of NaN; IndexError without data'),
    ('C19', 'fix: lapse time windows whose samples',
     'monitor: lapse time windows such as 0.29 s at 100 Hz had one sample too many on one side (also C20)'),
    ('C20', 'fix: extract reference traces with an array',
     'extract_multi_trace with an array of increments: ValueError'),
]
KNOWN = [
    ('C11', r'Slice:count of the source', 'CorrBulk.slice leaves ntrcs at the number of rows before slicing (the existing test test_slice expects the header unchanged)'),
    ('C13', r'Shift:one long row', 'correct_dv_shift rolls the similarity matrix as one long row, so that values move to the next time (the existing test test_shift_by_1 expects exactly that)'),
]


def main():
    log = subprocess.run(
        ['git', '-C', '/repo', 'log', '--format=%h %s'], text=True,
        stdout=subprocess.PIPE).stdout.splitlines()
    out, text = [], []
    for pid, msg, what in FIXED:
        c = [x.split()[0] for x in log if x.split(' ', 1)[1].startswith(msg)]
        assert len(c) == 1, (msg, c)
        out.append(dict(property=pid, status='fixed', commit=c[0], what=what))
        text.append('fixed: property=%s %s %s' % (pid, c[0], what))
    for pid, match, what in KNOWN:
        out.append(dict(property=pid, status='known', match=match, what=what))
    with open(os.path.join(V, 'known_findings.json'), 'w') as f:
        json.dump(dict(findings=out, fixed=text), f, indent=1)
        f.write('\n')


main()
