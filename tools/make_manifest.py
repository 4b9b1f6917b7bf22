"""Writes MANIFEST.json from the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MB = 'TLA+ specification checked with TLC; '
TECH = {
    'C01': (MB + 'TLC-generated behaviours replayed on the database, recorded histories validated against the specification',
            'Exhaustive on the model (small universe of names, windows, parameters); the real database is compared with it after every call of generated and random histories, reading the file with plain h5py. Trusts HDF5 and obspy time formatting.'),
    'C02': (MB + 'TLC-generated sequences of openings and variation of every parameter leaf, validated against the specification',
            'Every leaf of a full parameter set is varied in random orders of openings, modes and force; verdicts come from Params.tla. Which parameters are bookkeeping is fixed there.'),
    'C03': (MB + 'random database contents and queries, every answer validated against the query operators of the specification',
            'Sampled contents and queries over confusable codes; each answer is decided exactly by the specification.'),
    'C04': (MB + 'runs with crashes as an explicit algorithm (CorrRun.tla); generated and random histories of runs replayed on the real Correlator, every run validated',
            'The algorithm is checked exhaustively for small universes. On the real code runs die at every single write of a small project and at random ones; what must and may be stored, and every value, is computed by Corr.tla from the samples.'),
    'C05': (MB + 'all small and random sets of channels and requests given to the pair selection, whole runs recorded, validated against PairsOf',
            'Pair selection exhaustively for all subsets of 6 confusable channels, randomly beyond.'),
    'C07': (MB + 'processes, collectives and shares of work as a state machine (Ranks.tla); real runs with 1..12 ranks validated against the run with one',
            'Ranks are threads behind a communicator stand-in that detects deadlocks and orders file accesses by collectives; real MPI is not used.'),
    'C08': (MB + 'recorded runs on random schedules and availabilities validated against a functional specification that computes every stored value',
            'Sampled schedules and availabilities; each run is decided exactly (values to 4/60 of a unit).'),
    'C06': (MB + 'mirroring of the lag axis as a specification (Mirror.tla); correlations of coded traces of all pairs of codes recorded through the real correlator and validated',
            'Codes and shifts are sampled; lags, order and mirrored values are decided exactly.'),
    'C09': (MB + 'selection and stacking rules as a specification (Stacks.tla) whose partition is checked exhaustively for small collections; recorded calls on random collections validated',
            'Collections are sampled with boundary times; every answer is computed by the specification (values to 1e-4).'),
    'C10': (MB + 'matrix operations as a specification (Bulk.tla); recorded resamplings and reference extractions on random matrices and bins validated',
            'Matrices and bins are sampled with boundary times; the members of each bin and their mean are decided exactly (to 2e-3).'),
    'C11': (MB + 'matrix operations as a state machine (Bulk.tla, all sequences on small matrices); recorded histories of several real matrices validated after every call',
            'Model exhaustive for up to 4 rows and 7 columns. Real histories are sampled; rows, columns, labels, counts and side effects are decided exactly. Numerical filters are only checked for labels and side effects.'),
    'C12': (MB + 'header as a state machine (Header.tla) with all assignment sequences checked; recorded sequences on the real header validated',
            'Model exhaustive for small value sets; real headers with random sequences.'),
    'C13': (MB + 'averaging rules as a specification (Average.tla, order independence checked exhaustively for small sets); recorded averages of random sets validated',
            'Sets of results are sampled with NaN patterns, averages, other shapes and methods; members and means are decided exactly (to 2e-5).'),
    'C14': (MB + 'which files enter which average of a folder as a specification (Folder.tla, all histories of small folders checked); random folders with confusable codes are averaged repeatedly by the real code and every run validated file by file',
            'Folders are sampled (codes, paths, unreadable files, listing orders are chosen adversarially).'),
    'C15': (MB + 'selection of files, time grid and bulk runs with failures as a specification (Monitor.tla, all small sets of files, requests and failures); real monitoring runs on damaged projects validated and compared with each channel computed alone',
            'Projects are sampled; requests use the wildcards * and ?; damage is unreadable files, damaged data and correlations that are too short; grids with sub-second starts are excluded.'),
    'C16': (MB + 'objects and the archives of named arrays they are kept as (Saved.tla, all histories of saving and loading small objects); random histories of saving, overwriting, damaging and loading real results validated',
            'Objects are made by the code itself (stretching, averaging, coherence, matrix operations) for 1 to 6 windows; every field of header and attributes is compared by value.'),
    'C17': (MB + 'the archive of day files as a state machine (Archive.tla, all small histories of fetches, interrupted writes and changes of the remote); random histories of a real client with a scripted remote validated, files read with plain obspy after every call',
            'Model exhaustive for a few days and samples. Real histories are sampled: gaps, overlaps, midnights, the end of a year, single samples, failing remotes, failing writes, read-only clients, wildcards; every answer and file is decided exactly. Sample-aligned data only.'),
    'C18': (MB + 'streams, gaps and every masking, interpolating, tapering, detrending and discarding step as operators (Traces.tla, all sequences of steps on small streams); recorded calls on random streams compared sample by sample, up to the whole stream preprocessing',
            'Model exhaustive for traces of up to 5 samples and 4 steps. Real streams are sampled (gaps at ends, adjacent, covering and unordered intervals, single samples, NaN, integers); every sample is decided, tapers to 1e-4. Filters only for grouping and times.'),
    'C20': (MB + 'reference traces, coherences of rows with references over windows, their averages and groups as operators (Coherence.tla on Estimate.tla); the bulk computation by several processes with failing windows model checked; real calls on integer matrices, the monitor on files of such matrices and the averages it writes validated value by value',
            'Model exhaustive for 2 processes, 2 pairs of 2 components, 3 windows and up to 2 references. Real calls are sampled: small integer matrices, the monitor with one correlation of equal amplitude in each bin and without filter for the values (similarities to 0.003), with filters for the groups.'),
    'C21': (MB + 'every step of the matrix processing as an operator on one row (joint normalisation: three) in Preproc.tla; all sequences of steps on all partitions of small matrices model checked; real steps on random matrices, on selections and orders of their rows and in sequence, and correlation runs with some of the channels, validated',
            'Model exhaustive for 4 rows of 3 samples from a set of shapes and 3 steps. Real matrices are sampled (dead, constant, bursty rows, any length up to 40); values are decided to about 1 %, filters and sequences of steps only for independence.'),
    'C19': (MB + 'similarity over a lag window, windows of all sides, shifted and stretched references, the choice of the best, corrections and the combination of several references as operators (Estimate.tla); what an estimate may depend on model checked on all small rows; real estimates of random integer matrices validated value by value',
            'Model exhaustive for rows of 5 samples. Real calls are sampled: stretching exactly for polynomials and powers of two (other stretches: choice, copies, independence of the other rows), shifts of whole samples, windows that start and end at samples, similarities to 0.002.'),
    'C22': (MB + 'which curves enter, the normal equations of the solution, variances, alignment and the geometry of kernels in Inversion.tla (fixed point); a grid in use (stored kernels, repeated alignment) model checked; real grids with random stations, curves and parameters: each solution, resolution, forward model and kernel is checked against the equations the specification states',
            'Model exhaustive for two curves and 4 calls. Real inversions are sampled (up to 30 cells, 5 stations); solutions satisfy the normal equations to about 1 %, kernels are decided by their geometry (symmetries, support), not by the value of the integral.'),
    'C24': (MB + 'each step as an operator on one row or on the lag axis in PostProc.tla (clipping, normalisation, smoothing, envelope by the Hilbert kernel, decay fit, tapers); sequences of steps on the axis with samples that know their true lag model checked; recorded real steps, on selections and orders of rows, sequences on CorrBulk, sinusoids and single arrivals validated',
            'Model exhaustive for axes of up to 8 samples and 3 steps. Real matrices are sampled (empty, constant, bursty rows, up to 16 samples; sequences up to 401 samples); values are decided to about 1 %, filters by linearity, by pass and stop bands and by the lag of an arrival.'),
    'C25': (MB + 'blocks, processes and windows in Spectra.tla; all archives of a few ticks, read increments and distributions over processes model checked; spectrograms of a real Store_Client of data whose ticks have signals of known frequencies, on up to three processes, validated: which windows, in which order, of which frequencies',
            'Model exhaustive for archives of 6 ticks and 2 processes (thorough: 8 and 3). Real archives are sampled: up to 22 ticks of 64 s with gaps, several sampling rates and day ends; response removal is not exercised.'),
    'C26': (MB + 'times of comparison, offset and order of correction in Stitch.tla (exact rationals); all families of three short curves with constant offsets model checked; recorded corrections of pairs, of lists and averages of corrected curves validated',
            'Model exhaustive for 3 curves of 3 times (thorough: 4). Real curves are sampled: up to 5 of up to 7 times, one maximum per row well inside of the axis; what is shifted in at the ends of the rows is left open.'),
    'C27': (MB + 'the reader as a machine in FileTree.tla; requests from all trees of three or four short files model checked; trees of real files of nine structures read by FS_Client and validated sample by sample',
            'Model exhaustive for 3 files of 7 ticks (thorough: 4 of 9). Real trees are sampled: hours, days, months, years around the ends of months and years; the names of files come from an independent translation in the driver.'),
}
NA = {
    'C23': 'floating-point accuracy of spectral operations (FFT, filters, resampling kernels); TLA+/TLC has no real arithmetic, so no specification of it can be checked or bound to recorded values',
}
LEVEL = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in TECH and os.path.exists(
                os.path.join(V, 'checks', i.lower() + '.py')):
            checks.append(dict(
                property=i, quick_cmd='./check %s quick' % i,
                thorough_cmd='./check %s thorough' % i,
                evidence_file='evidence/%s.json' % i,
                technique=TECH[i][0], level=LEVEL.get(i, 'model_checking'),
                level_note=TECH[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, 'check not built yet')))
    m = dict(version=1, setup_cmd='./setup', checks=checks,
             not_applicable=na,
             notes='No hooks in /repo: the checks drive the public interface '
             'and read the files it writes. Commits in /repo are fixes only '
             '(known_findings.json).')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
