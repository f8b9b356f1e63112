"""What each property's check consists of."""
import gen

COMMON = ['riptide is built from /repo with the same compiler flags as its own build',
          'NumPy, pandas, astropy, schema and pybind11 behave as documented']

CHECKS = {
    'C01': dict(
        driver='c01.py', trace='TraceFFA',
        mc=[dict(module='MC_FFA', quick={'MMAX': 18}, thorough={'MMAX': 40},
                 inv=['OutputCorrect', 'Facts'], prop=['Terminates'], min_states=100)],
        technique='TLA+ recursion machine of the FFA (TLC) + trace validation of impulse and integer responses',
        note='TLC checks the recursion machine (buffer swapping, merge order) against the declarative drift table for all '
             'm up to a bound; impulse responses and integer inputs of the real transform are then validated against that '
             'table by TLC, for every m up to 33 (quick) / 79 (thorough) and sampled m up to 2000.',
        assumptions=COMMON + ['float32 sums of small integers are exact',
                              'head shares that are exact half-integers may round either way']),
    'C02': dict(
        driver='c02.py', trace='TraceFFA', mc=[],
        technique='TLA+ definition of trial labels, TLC trace validation in scaled integers',
        note='Every label of enumerated and random (N, p, dt) is compared by TLC with the exact rational value at ~1e-9 '
             'relative precision; argument checks are enumerated.',
        assumptions=COMMON),
}

CHECKS['C03'] = dict(
    driver='c03.py', trace='TraceDownsample',
    mc=[dict(module='MC_Downsample', quick={'SMAX': 6, 'DMAX': 4}, thorough={'SMAX': 10, 'DMAX': 6},
             inv=['InBounds', 'Weights', 'Remainder'], min_states=500)],
    technique='TLA+ streaming integrator (TLC) + trace validation of outputs in exact rational units',
    note='TLC proves the streaming integrator equal to the overlap definition for all small sizes and factors; recorded '
         'outputs of the real code (every size up to a bound and every quarter-sample factor, random rational factors, '
         'series up to 4M samples sampled) are compared with the exact rational integral.',
    assumptions=COMMON + ['at factors that divide the data exactly but are not exactly representable, losing the last output is not a violation'])
CHECKS['C04'] = dict(
    driver='c04.py', trace='TraceBoxcar',
    mc=[dict(module='MC_Boxcar', quick={'NMAX': 5, 'VNEG': 1, 'VMAX': 1}, thorough={'NMAX': 7, 'VNEG': 1, 'VMAX': 2},
             inv=['ZeroMean', 'Energy', 'MachineRight', 'IsCorrelation', 'Invariances'], min_states=500)],
    technique='TLA+ matched-filter definition and prefix-sum machine (TLC) + trace validation of S/N values',
    note='TLC proves the prefix-sum machine equal to the correlation with a zero-mean unit-energy template on all small '
         'profiles; the S/N of the real code on all small profiles and random N-D inputs is compared with the integer score.',
    assumptions=COMMON)

CHECKS['C05'] = dict(
    driver='c05.py', trace='TraceSearch',
    mc=[dict(module='MC_Big', quick={'S1': 32767, 'S2': 99990001}, thorough={'S1': 32767, 'S2': 99990001},
             inv=['Correct', 'Algebra'], min_states=2000),
        dict(module='MC_Search', quick={'NMAX': 12, 'BMAX': 4, 'DEN': 1}, thorough={'NMAX': 18, 'BMAX': 5, 'DEN': 2},
             inv=['CountRight', 'Sized', 'InRange'], prop=['Terminates'], min_states=1000)],
    technique='TLA+ two-pass search grid machine (TLC) + trace validation of whole periodograms in exact rational arithmetic',
    note='TLC proves that the trial count formula keeps exactly the FFA trials below the limits, in order and in range, for all '
         'small requests; the real periodograms of random and boundary requests (up to 40k samples, 480 bins) are walked '
         'trial by trial along the exact grid.',
    assumptions=COMMON + ['a trial or stage whose membership hangs on a tie within 1e-7 bins (or 1e-12 relative) may go either way',
                          'a valid request that contains no trial may raise'])
CHECKS['C06'] = dict(
    driver='c06.py', trace='TraceSearch',
    mc=[dict(module='MC_Noise', quick={'FMAX': 4, 'DMAX': 7, 'NOUT': 20}, thorough={'FMAX': 6, 'DMAX': 12, 'NOUT': 40},
             inv=['FullCycle', 'IntegerFactor', 'Drifting'], min_states=500)],
    technique='TLA+ composition of resampling, FFA and boxcar definitions; trace validation of S/N values in exact arithmetic',
    note='For small integer series the specification computes every S/N of the periodogram exactly from the data; for realistic '
         'sizes the S/N are related to the (separately verified) public building blocks. The noise variance formula is '
         'model checked against the sum of squared overlaps.',
    assumptions=COMMON + ['rows whose FFA drift has a rounding tie are only compared at realistic sizes'])
CHECKS['C07'] = dict(
    driver='c07.py', trace='TraceFold',
    mc=[dict(module='MC_Fold', quick={'NMAX': 7, 'DMAX': 3, 'BMAX': 3}, thorough={'NMAX': 10, 'DMAX': 4, 'BMAX': 4},
             inv=['Right', 'SameProfile', 'EachOnce'], min_states=500)],
    technique='TLA+ folding machine (TLC) + trace validation of folded values in exact rational units',
    note='TLC proves a sample-by-sample folding machine equal to the definition, flux conserving and independent of the number of '
         'rows; the values of real folds (random sizes, factors, every number of rows) are compared with exact integrals.',
    assumptions=COMMON + ['when the period times a whole number equals the data length only up to rounding of the inputs, the last period may be dropped'])
CHECKS['C08'] = dict(
    driver='c08.py', trace='TraceRunMed',
    mc=[dict(module='MC_RunMed', quick={'NMAX': 5, 'VMAX': 2}, thorough={'NMAX': 7, 'VMAX': 2},
             inv=['Medians', 'InBounds', 'Interpolation'], prop=['Terminates'], min_states=1000)],
    technique='TLA+ ring buffer and quickselect machine (TLC) + trace validation of running medians and dereddened data',
    note='TLC proves the streaming ring buffer/quickselect machine to give the edge-padded windowed medians for all small data; '
         'recorded exact and fast medians, and dereddened series, are compared sample by sample with the definition.',
    assumptions=COMMON + ['widths in seconds that fall half way between two numbers of samples are not used'])

CHECKS['C09'] = dict(
    driver='c09.py', trace='TraceTimeSeries',
    gen=[gen.histories('MC_TimeSeries',
                       ({'DEPTH': 9, 'MAXOBJ': 5, 'N0': 64, 'T0': 4096, 'GEN': 'TRUE'},
                        {'DEPTH': 14, 'MAXOBJ': 7, 'N0': 64, 'T0': 4096, 'GEN': 'TRUE'}), (500, 6000))],
    mc=[dict(module='MC_TimeSeries', cfg='SPECIFICATION Spec\nVIEW View\n',
             const={'N0': 8, 'T0': 64, 'GEN': 'FALSE'}, quick={'DEPTH': 5, 'MAXOBJ': 3}, thorough={'DEPTH': 6, 'MAXOBJ': 4},
             inv=['ValueSemantics', 'Attributes', 'Independent', 'Separate', 'Shrinks'], min_states=10000)],
    technique='TLA+ heap machine of TimeSeries objects (TLC); TLC-generated operation histories replayed in the real code and validated',
    note='TLC proves the allocation discipline of the operations to implement value semantics in every history up to a depth; random '
         'histories it generates are replayed in the real code, and every step is checked against the specification (frame, '
         'sharing, in-place = out-of-place, sampling, tobs, metadata).',
    assumptions=COMMON + ['values that agree to 1e-5 of the largest sample are the same (float32 rounding)'])
CHECKS['C10'] = dict(
    driver='c10.py', trace='TraceFfaSearch',
    mc=[dict(module='MC_FfaSearch', quick={'BMAX': 12, 'DMAX': 4}, thorough={'BMAX': 24, 'DMAX': 6},
             inv=['Prepared', 'InputKept', 'Widths', 'Sane'], prop=['Terminates'], min_states=10000)],
    technique='TLA+ search pipeline machine and width recursion (TLC) + trace validation of ffa_search results',
    note='TLC checks the stage machine and the width recursion for all small settings; recorded searches (all combinations of '
         'stages, windows, defaults) are compared with the stages applied through the public methods, and every sequence of '
         'width trials with the recursion in exact rational arithmetic.',
    assumptions=COMMON + ['products that are whole numbers only in exact arithmetic may be rounded down'])
CHECKS['C12'] = dict(
    driver='c12.py', trace='TraceCluster',
    mc=[dict(module='MC_Cluster', quick={'NMAX': 4, 'VMAX': 4, 'RMAX': 3}, thorough={'NMAX': 5, 'VMAX': 6, 'RMAX': 4},
             inv=['IsComponents', 'Partition', 'Characterised', 'Discriminates'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ sort-and-cut machine against connected components (TLC) + trace validation of the groups',
    note='TLC proves the sort-and-cut machine to give the connected components for all small inputs in any order, and the '
         'characterisation used on traces to single them out; the groups of the real code for all small inputs and random larger ones '
         '(ties at exactly the radius, all orders, dtypes and layouts) are validated.',
    assumptions=COMMON + ['values whose differences are not exact in floating point are not used'])
CHECKS['C11'] = dict(
    driver='c11.py', trace='TracePeakDetect',
    mc=[dict(module='MC_PeakDetect', quick={'NMAX': 4, 'SMAX': 2, 'GMAX': 2}, thorough={'NMAX': 5, 'SMAX': 2, 'GMAX': 3},
             inv=['OnePerGroup', 'GroupsAreComponents', 'NothingBelow', 'NothingMissed'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ peak scanning machine (TLC) + trace validation of peaks and of the fitted threshold',
    note='TLC proves the scanning machine to report the best trial of every connected group for all small periodograms; on recorded '
         'calls the specification recomputes segments, medians and quartiles from the S/N, verifies the reported polynomial by the '
         'normal equations of least squares, then derives the set of peaks.',
    assumptions=COMMON + ['logarithms are evaluated by the harness; a width with a trial within 3e-5 of the fitted threshold is not decided'])
CHECKS['C13'] = dict(
    driver='c13.py', trace='TraceHarmonic',
    mc=[dict(module='MC_Harmonic', quick={'NMAX': 40, 'DMAX': 8}, thorough={'NMAX': 90, 'DMAX': 16},
             inv=['ResClosest', 'Unique', 'Proper', 'Exact'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ closest-fraction definition and continued-fraction machine (TLC) + trace validation of the test in exact arithmetic',
    note='TLC checks the continued fraction algorithm against exhaustive search over denominators for all small frequency pairs; '
         'recorded harmonic tests (limits met exactly, just passed, just failed) are decided in exact rational arithmetic.',
    assumptions=COMMON + ['a DM distance within 0.1% of its limit (rounding of the dispersion constant) may go either way',
                          'an equality that floating point cannot represent exactly may go either way'])
CHECKS['C14'] = dict(
    driver='c14.py', trace='TraceFlag',
    mc=[dict(module='MC_Flag', quick={'NMAX': 4}, thorough={'NMAX': 5},
             inv=['LoopRight', 'PredicateRight', 'NoChain', 'BrightestFree', 'Unique'], prop=['Terminates'], min_states=500)],
    technique='TLA+ flagging loop over all relations (TLC) + trace validation of clusters, ranks, flags and fractions',
    note='TLC proves the pairwise flagging loop equal to the declarative definition (brightest unflagged related cluster) for every '
         'relation on up to 4 (quick) / 5 (thorough) clusters; the stages of the real pipeline are run on generated peak sets (harmonic '
         'chains, ties, several runs of one object) and validated against it, the relation being read from the harmonic test (C13).',
    assumptions=COMMON + ['the peaks handed to the clustering stage are sorted by period, as the search stage leaves them (C16)'])
CHECKS['C17'] = dict(
    driver='c17.py', trace='TraceFlag',
    mc=[dict(module='MC_Filter', quick={'NMAX': 3, 'VMAX': 1}, thorough={'NMAX': 4, 'VMAX': 1},
             inv=['Right', 'NoDup'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ filter-then-cap machine (TLC) + trace validation of the clusters kept',
    note='TLC proves the staged filters equal to the declarative set for all small cluster lists and filter combinations; the real '
         'stage is run on all lists of up to two clusters and random larger ones, with every combination of blank, inactive, limiting '
         'and equal-to-the-limit filters.',
    assumptions=COMMON + ['among clusters of equal S/N at the cap, any may be kept'])
CHECKS['C15'] = dict(
    driver='c15.py', trace='TraceDmSelect',
    mc=[dict(module='MC_DmSelect', quick={'VMAX': 7, 'WMAX': 2, 'CD': 3}, thorough={'VMAX': 9, 'WMAX': 3, 'CD': 4},
             inv=['CoversAll', 'EndsIn', 'Minimal', 'Characterised', 'Sound'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ greedy stepping machine against exhaustive cover search (TLC) + trace validation of the selected DMs',
    note='TLC proves that the stepping machine covers every coverable DM with the fewest trials, against all subsets, for every small '
         'set of trials, flat radius and smearing slope; selections of the real iterator from generated files of both formats '
         '(any order, holes, growing steps, blank or limiting range and latitude cap, ignored or needed band parameters, refused '
         'inputs) are validated with radii recomputed in exact rational arithmetic.',
    assumptions=COMMON + ['a pair of DM trials within 4e-6 of the limit of their radii may count as linked or not',
                          'no two files have the same DM', 'the Galactic latitude of a position is computed with astropy'])
CHECKS['C16'] = dict(
    driver='c16.py', trace='TraceSchedule',
    mc=[dict(module='MC_Schedule', quick={'FMAX': 3, 'CMAX': 3, 'WMAX': 3, 'PMAX': 1}, thorough={'FMAX': 3, 'CMAX': 4, 'WMAX': 3, 'PMAX': 2},
             inv=['Exact', 'Faults'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ chunked parallel search machine, all interleavings (TLC) + trace validation of the union of peaks',
    note='TLC explores every interleaving of workers over chunks and ranges and shows the gathered peaks to be the exact union; runs of '
         'the real search stage over generated file sets (both formats, 1-7 trials, 1-9 processes, 1-3 ranges with their own options, '
         'ranges that do not fit, repeated runs) are compared by TLC with the union of what the public functions find; runs in which a file has become unreadable must '
         'fail exactly if its trial is selected.',
    assumptions=COMMON + ['searching one trial in one range through the public functions is right (C05-C11)',
                          'peaks are the same when S/N agree to 3e-4 and periods to 4e-7 s'])
CHECKS['C18'] = dict(
    driver='c18.py', trace='TraceCandidates',
    mc=[dict(module='MC_Candidates', quick={'NMAX': 3, 'DMAX': 2, 'SMAX': 3}, thorough={'NMAX': 5, 'DMAX': 2, 'SMAX': 2},
             inv=['Complete', 'RightData', 'Sorted', 'OneRange'], prop=['Terminates'], min_states=1000)],
    technique='TLA+ building stage with grouping and failures (TLC) + trace validation of every candidate',
    note='TLC proves the grouped building stage to give every buildable cluster once, from its own data, whatever fails; the real stage '
         'is run on clusters over several trials and ranges (periods at, just below and above range borders, longer than the data, too '
         'short for the bins) and TLC picks, from the table of all folds of all files with all range parameters, the one each '
         'candidate must contain.',
    assumptions=COMMON + ['folding, dereddening and normalisation are right (C07-C09)', 'equal array contents: within 1e-4'])
CHECKS['C19'] = dict(
    driver='c19.py', trace='TraceProducts',
    mc=[dict(module='MC_Products', quick={'RUNS': 2, 'PMAX': 2, 'RESET': 'TRUE'}, thorough={'RUNS': 3, 'PMAX': 2, 'RESET': 'TRUE'},
             inv=['Fresh'], prop=['Terminates'], min_states=1000)],
    technique='TLA+ machine of repeated runs and their products (TLC) + trace validation of the output directory',
    note='TLC explores every sequence of inputs (without peaks, without candidates, with both) through one pipeline object and shows the '
         'disk to hold what a fresh object would write; real histories (1-3 runs of one object, both formats, plots, relative output '
         'directories, the command line program) are validated: file names, tables to nine decimals, candidate files, '
         'equality with a fresh run, nothing changed elsewhere; and runs in which one name of the output directory cannot be '
         'written must fail exactly when they need it.',
    assumptions=COMMON + ['each run has its own, initially empty output directory'])
CHECKS['C20'] = dict(
    driver='c20.py', trace='TraceConfig',
    gen=[gen.enumerate_and_sample('MC_Config', (300, 4000), (2, 3))],
    mc=[dict(module='MC_Config', quick={'DEPTH': 1, 'GEN': 'FALSE'}, thorough={'DEPTH': 2, 'GEN': 'FALSE'}, inv=['Sane'], min_states=1500)],
    technique='TLA+ table of the documented configuration; configurations generated by TLC (all single mutations, random combinations) replayed and decided',
    note='TLC generates every single-key mutation (all keys, sections and unknown keys x 32 values) and random combinations; each is given to '
         'the real pipeline as a dict or YAML file and TLC decides whether it had to be accepted. Search ranges (equalities, one-ulp gaps, '
         'several sampling times) are decided with data files absent, so that work before the check is noticed.',
    assumptions=COMMON + ['values the documentation does not settle (booleans or numeric strings as numbers, numpy scalars, inf) may be '
                          'accepted or refused', 'a key that the documentation does not mention must be refused'])
CHECKS['C21'] = dict(
    driver='c21.py', trace='TraceSigproc',
    mc=[dict(module='MC_Sigproc', const={'IntSize': 1, 'FloatSize': 2, 'MaxLen': 3},
             cfg='SPECIFICATION Spec\nCONSTANT StartFlag <- Start\nCONSTANT EndFlag <- End\n',
             quick={'FILEMAX': 6, 'ITEMMAX': 2}, thorough={'FILEMAX': 8, 'ITEMMAX': 3},
             inv=['Sound', 'Complete', 'LastWins'], prop=['Terminates'], min_states=5000)],
    technique='TLA+ byte-level header parser (TLC, all small byte strings) + trace validation: TLC decodes the bytes of every file',
    note='TLC shows the parser machine to accept exactly what the writer produces, over every byte string up to a length and every small '
         'header; the same machine, with the real sizes and keys, then decodes the bytes of generated files (any key order, repeated, '
         'unknown, extra and overriding keys, 8/32 bits, cut or corrupted at any byte) and decides what the reader had to return.',
    assumptions=COMMON + ['files without coordinates, and standard keys the reader needs declared with another type, may be refused or read',
                          'sky coordinates: within 1e-4 s of time, 1e-3 s of arc'])
CHECKS['C22'] = dict(
    driver='c22.py', trace='TracePresto',
    mc=[dict(module='MC_Presto', quick={'NMAX': 5}, thorough={'NMAX': 7},
             inv=['Exact', 'PairsRight', 'One', 'Why'], prop=['Terminates'], min_states=20000)],
    technique='TLA+ line parser equal to a declarative layout (TLC, all small files) + trace validation: TLC parses the lines of every file',
    note='TLC shows the line-by-line parser to accept exactly the files of the declared layout, with exactly the pairs it contains, for '
         'every file of up to 5 (quick) / 7 (thorough) lines; the same machine parses the text of generated files (all bands, any '
         'number of pairs, any text, odd file names, every line spoilt or missing) and decides what the reader had to return.',
    assumptions=COMMON + ['the double nearest to a decimal number is what Python\'s float() gives',
                          'a file that ends too early may be refused with any error', 'breaks announced without a pair are accepted'])
CHECKS['C23'] = dict(
    driver='c23.py', trace='TraceSerial',
    mc=[dict(module='MC_Serial', const={'Current': '"now"'}, quick={'DEPTH': 1, 'WIDTH': 2, 'STEPS': 3}, thorough={'DEPTH': 2, 'WIDTH': 1, 'STEPS': 5},
             inv=['RoundTrip', 'OriginalKept', 'Stable', 'FileIsJson'], min_states=2000)],
    technique='TLA+ writer and bottom-up reader over value trees, all histories (TLC) + trace validation of loaded trees and their use',
    note='TLC shows reading what was written to give back the value, for every value tree up to a depth and every history of saves, '
         'loads and changes; real values (all array dtypes and layouts, objects nested in lists and dicts, versions) are described '
         'exactly before and after, and TLC computes what loading had to return; operations on originals and loaded copies are compared.',
    assumptions=COMMON + ['table columns are compared by value (an integer column may come back as floats)', 'sky coordinates: within 3e-9 degrees',
                          'Metadata may come back as a plain dict inside other objects'])
CHECKS['C24'] = dict(
    driver='c24.py', trace='TraceRseek',
    mc=[dict(module='MC_Rseek', quick={'NMAX': 3, 'FMAX': 4, 'SMAX': 2, 'RMAX': 2}, thorough={'NMAX': 4, 'FMAX': 5, 'SMAX': 3, 'RMAX': 2},
             inv=['Right', 'Forms', 'NoneWhenNone'], prop=['Terminates'], min_states=2000)],
    technique='TLA+ reporting machine equal to connected components (TLC) + trace validation of command lines and of printed tables',
    note='TLC shows the sort-cut-pick machine to report exactly the brightest of each connected component, for every small set of peaks; '
         'runs of the real program (both formats, all options, in process and as a process) are decided against the peaks of a search '
         'with the options that the command line spells, and its option table.',
    assumptions=COMMON + ['searching and peak finding through the public functions are right (C05-C13)',
                          'two neighbouring frequencies within 3e-6 of the clustering radius are not decided'])

CHECKS['C26'] = dict(
    driver='c26.py', trace='TraceMeta',
    gen=[gen.histories('MC_Meta', ({'DEPTH': 10, 'MAXOBJ': 6, 'GEN': 'TRUE'}, {'DEPTH': 16, 'MAXOBJ': 8, 'GEN': 'TRUE'}), (600, 6000))],
    mc=[dict(module='MC_Meta', cfg='SPECIFICATION Spec\nVIEW View\n', const={'GEN': 'FALSE', 'MAXOBJ': 3}, quick={'DEPTH': 5}, thorough={'DEPTH': 6},
             inv=['ValueSemantics', 'AllReserved', 'Independent', 'Carried', 'Rules'], min_states=5000)],
    technique='TLA+ heap machine of metadata cells (TLC) whose behaviours are replayed in the real code + trace validation',
    note='TLC shows that objects that get a cell of their own hold exactly what was given, derived or set, in every history up to a depth, and '
         'generates the histories (all loaders, in-place and derived operations, keys set, callers changing their dicts, searches, candidates) that '
         'are replayed with every metadata observed at every step; every kind of value under every key is accepted or refused as the table says.',
    assumptions=COMMON + ['integers under a float key may be refused or converted, infinite values kept or refused'])

CHECKS['C25'] = dict(
    driver='c25.py', trace='TraceLayout',
    mc=[dict(module='MC_Layout', quick={'MEM': 6, 'DIM': 2, 'SMAX': 2, 'ARGMAX': 5}, thorough={'MEM': 8, 'DIM': 2, 'SMAX': 3, 'ARGMAX': 7},
             inv=['Right', 'NoPoison', 'Unchanged', 'RefusedOnly', 'Meaning'], prop=['Terminates'], min_states=20000)],
    technique='TLA+ memory-and-views machine (TLC, all small views) + trace validation: TLC reads the views of the inputs of real calls',
    note='TLC shows that reading consecutive cells is right exactly when a view is contiguous, and that the kernels then touch nothing else, for '
         'every view (strides of any sign, zero included) of a small memory; calls of the real kernels are given as memory and views, from '
         'which TLC computes the result; all public array functions are compared over layouts, types and sizes with a contiguous float32 copy.',
    assumptions=COMMON + ['non-empty arrays', 'results for another layout or type may differ by rounding errors (2e-6 to 1e-4 of the largest value)'])

CHECKS['C27'] = dict(
    driver='c27.py', trace='TracePulse',
    mc=[dict(module='MC_Pulse', quick={'AMAX': 12, 'BMAX': 5, 'TURNS': 3}, thorough={'AMAX': 30, 'BMAX': 11, 'TURNS': 4},
             inv=['Closed', 'Even', 'Periodic', 'OnlyThese'], min_states=500)],
    technique='TLA+ phase machine and pulse shape conditions (TLC) + trace validation of generated signals and of loaded data',
    note='TLC shows the phase carried from sample to sample to be the closed form, each place of the period to come equally often, and the '
         'shape conditions (half maximum, cosine doubling) to admit only the von Mises pulse on the grids where it is rational; generated signals '
         '(rational periods, any phase, width, amplitude) and series made from arrays and files of every type are decided value by value.',
    assumptions=COMMON + ['the noise statistics are accepted within 7 standard deviations', 'lengths half way between two numbers of samples are not used'])

CHECKS['C28'] = dict(
    driver='c28.py', trace='TracePlot',
    mc=[dict(module='MC_Plot', quick={'NPEAKS': 4, 'DMAX': 3, 'DAYS': 66500, 'VMAX': 2, 'NMAX': 5, 'FMAX': 6},
             thorough={'NPEAKS': 5, 'DMAX': 4, 'DAYS': 100000, 'VMAX': 3, 'NMAX': 6, 'FMAX': 7},
             inv=['CurveIsBest', 'Calendar', 'Numbers', 'Panel', 'Base', 'Owned'], prop=['Terminates'], min_states=60000)],
    technique='TLA+ machines of the DM curve, wheel, calendar and figures (TLC) + trace validation of what drawn figures contain',
    note='TLC shows the curve to be the best S/N kept peak by peak, the panels to be one and a half turns, the base line to be a median and the '
         'calendar to be the day count up to 2040 (quick); the figures the real code draws (images, bars, lines, texts, views) of random and '
         'boundary candidates and periodograms are read back and compared value by value, and histories of figures by their number.',
    assumptions=COMMON + ['matplotlib draws what its artists hold', 'the four panels of a candidate are an image, bars, a line and texts',
                          'days that end in a leap second are not used'])
