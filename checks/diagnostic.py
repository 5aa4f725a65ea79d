"""C17-C29, C31: diagnostic classes.   diagnostic.py C17|C20|..."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, diag

THOROUGH = common.TIER == 'thorough'


def c17(rep):
    h = diag.Harness('C17', 'helper.cpp')
    diag.run(rep, h, ['diffbit_double', 'diffbit_float'],
             {1: 'zero exactly for identical representations', 2: 'position of the highest set bit of the distance', 3: 'symmetric'},
             'the different-bit function runs symbolically on two unknown representations; the claims compare it with the bit length of the absolute '
             'difference; all 2^128 (2^64) pairs are covered by bit-vector queries without abstraction', diag.ASSUME, vals=12)


def c20(rep):
    h = diag.Harness('C20', 'timer.cpp')
    diag.run(rep, h, ['timer_once', 'timer_again', 'timer_two'],
             {1: 'elapsed time is the difference of the readings', 2: 'asking twice gives the same', 3: 'a second measurement does not depend on the first',
              4: 'a later stop measures from the same start', 5: 'first of two timers', 6: 'second of two timers'},
             'the timer runs symbolically with a clock returning unknown, non-decreasing readings; bit-vector queries ask for readings where the '
             'reported time is not their difference in nanoseconds', diag.ASSUME + ['readings up to 2^40 s, intervals up to 200 years; nanosecond part in [0, 10^9)'])


SUMM = dict(summ=[r'^@_ZN4vdth'], irx=['-mllvm', '-inline-threshold=0'])


def scen(h, pick=lambda n: True):
    return [n for n in h.scenarios() if pick(n)]


def c18(rep):
    rows = 6 if THOROUGH else 4
    h = diag.Harness('C18', 'persist.cpp', nrandom=True, extra=['-DROWS=%d' % rows], **SUMM)
    diag.run(rep, h, scen(h),
             {1: 'value can be read back', 2: 'value read back has the same bits', 3: 'stream back in decimal mode', 4: 'nothing left to read',
              10: 'pool has the requested size', 11: 'reloaded pool holds the same numbers', 12: 'pool written again and reloaded',
              21: 'reloaded response has the same inputs', 22: 'reloaded response has the same outputs', 23: 'response written again and reloaded',
              31: 'reloaded comparison prints the same', 32: 'reloaded comparison reports a difference as the original', 33: 'comparison written again and reloaded'},
             'the writing and the reading code run symbolically one after the other on unknown bit patterns; text is a sequence of characters and '
             'formatted unknown numbers; the queries ask for values that come back different', diag.ASSUME +
             ['%d rows per object, and lists of up to 300 rows made of few unknown values; names and headers as the classes write them' % rows,
              'printing and re-reading of a number in one base and fill is exact in the library; a number may be preceded by fill characters only'])


def c19(rep):
    h = diag.Harness('C19', 'stats.cpp', extra=['-DDEEP'] if THOROUGH else [], **SUMM)
    diag.run(rep, h, scen(h),
             {1: 'a difference is reported exactly when there is one', 2: 'statistics can be read', 3: 'maximum', 4: 'minimum', 5: 'mean', 6: 'spread',
              7: 'rows can be read', 8: 'contents and different bit of a row', 9: 'the table line shows the same numbers'},
             'the comparison classes run symbolically on lists of unknown values; the different-bit function is replaced by its own joined-path '
             'term; the queries ask for contents whose statistics differ from those computed from the claims of the harness', diag.ASSUME +
             ['lists of 1..%d unknown elements, and lists of up to 300 elements made of two unknown pairs' % (5 if THOROUGH else 3), 'sums and squares are exact below 2^53; divisions are compared as the same real operation'])


def c21(rep):
    h = diag.Harness('C21', 'response.cpp')
    diag.run(rep, h, scen(h),
             {1: 'inputs kept', 2: 'number of outputs', 3: 'output is the function of its own input',
              5: 'element accessors'},
             'the response classes run symbolically on unknown inputs and an uninterpreted function; the queries ask for a function and inputs where '
             'some stored output is not the function applied to its own input', diag.ASSUME + ['lists of 0,1,2,3,5,8,17 unknown elements; 300 elements repeating 20 unknown ones'])


def c22(rep):
    h = diag.Harness('C22', 'cmd.cpp')
    diag.run(rep, h, scen(h),
             {1: 'parsing succeeds exactly for known, unrepeated options', 2: 'option set exactly when given', 3: 'argument text', 4: 'undeclared option'},
             'the option parser runs symbolically on argument texts of unknown bytes; the queries ask for texts where acceptance, the set options or '
             'their arguments differ from the stated meaning', diag.ASSUME +
             ['one argument of up to 7 unknown bytes, two of up to 6, three of up to 5, and unknown bytes after fixed beginnings; five declared options '
              'including names that are beginnings of each other; thirteen declared options with names and arguments of up to 290 characters around one to three unknown bytes'])


def c23(rep):
    h = diag.Harness('C23', 'pools.cpp', limits=True, nrandom=False, extra=['-DDEEP'] if THOROUGH else [])
    diag.run(rep, h, scen(h),
             {1: 'number of values', 2: 'values inside their interval', 3: 'second coordinates inside their own interval',
              4: 'same seed gives the same values', 5: 'reported size'},
             'the pool classes run symbolically over unknown intervals and seeds, with a generator whose draws are uninterpreted functions of the seed '
             'inside the requested interval; the queries ask for intervals and seeds where a value lies outside or two equal pools differ', diag.ASSUME +
             ['pools of 0..%d values and of 300' % (33 if THOROUGH else 5), 'seeds in [0, 2^31); finite bounds, lower below upper',
              'uniform_real_distribution is modelled as any value of the closed interval it was built with'])


def c24(rep):
    h = diag.Harness('C24', 'perf.cpp', prune=True)
    diag.run(rep, h, scen(h),
             {1: 'number of evaluations', 2: 'elements in order', 3: 'mean time per evaluation'},
             'the benchmark classes run symbolically with a function that takes an unknown time per evaluation and a clock that adds up these times; the '
             'queries ask for times where the reported mean is not the measured total over the number of evaluations', diag.ASSUME +
             ['1..5 elements, 1..4 repetitions, up to 2^20 ns per evaluation'])


def c25(rep):
    import arrays
    arrays.generate('C25')
    h = diag.Harness('C25', 'tables.cpp', nrandom=True, extra=['-I' + common.builddir('C25')])
    diag.run(rep, h, scen(h),
             {1: 'entry computes the function of its name', 2: 'argument pool of the function', 3: 'every name once', 4: 'number of entries',
              5: 'list of basic names'},
             'the tables are built symbolically and every entry is applied to unknown values; the queries ask for values where an entry differs from the '
             'function of its name', diag.ASSUME + ['library functions (exp, sin, ...) are uninterpreted functions', 'array entries on two elements'])


def c26(rep):
    h = diag.Harness('C26', 'bits.cpp', **SUMM)
    diag.run(rep, h, scen(h),
             {1: 'text of a bit pattern', 2: 'bit pattern as a number', 3: 'print-out of one difference', 4: 'print-out for one argument',
              5: 'print-out for a list of arguments', 6: 'print-out of two array functions'},
             'the text and print-out functions run symbolically on unknown values and uninterpreted functions; a text is a sequence of possibly '
             'unknown characters and formatted unknown numbers; the queries ask for values where it differs from the text the harness builds', diag.ASSUME +
             ['lists of 0..3 and 9 arguments', 'std::bitset is replaced by a model that computes its texts without branching'])


def c27(rep):
    h = diag.Harness('C27', 'listing.cpp', nrandom=True, extra=['-DDEEP'] if THOROUGH else [], **SUMM)
    diag.run(rep, h, scen(h),
             {1: 'listing of a pool', 2: 'listing of a response', 3: 'listing of a comparison'},
             'the listing code runs symbolically on lists of unknown values; the queries ask for values where the text differs from the one the '
             'harness builds from the same values', diag.ASSUME +
             ['pools and responses of 0..3, 12 and 300 elements (at most 20 different unknown values); comparisons of 1..%d elements' % (3 if THOROUGH else 2)])


def c28(rep):
    import arrays
    arrays.generate('C28')
    h = diag.Harness('C28', 'compare.cpp', extra=['-I' + common.builddir('C28'), '-I' + common.REPO], **SUMM)
    diag.run(rep, h, scen(h),
             {1: 'successful exit', 2: 'table on the screen', 3: 'a comparison file for every pair', 4: 'contents of the comparison file',
              5: 'incomplete command lines are refused', 6: 'nothing written for them', 7: 'one file name between commas', 8: 'files named in the list are compared'},
             'the comparison program runs symbolically from its command line to the files it writes, on response files of unknown values; the queries '
             'ask for values where the table or a file differs from the comparison of the same values', diag.ASSUME +
             ['up to four pairs of files, 1..3 rows each; file lists of up to 4 unknown characters out of three, and the fixed lists of the harness'])


def c29(rep):
    import arrays
    arrays.generate('C29')
    h = diag.Harness('C29', 'bench.cpp', limits=True, nrandom=True, opaque=[r'^@_ZN3vdt'], extra=['-I' + common.builddir('C29'), '-I' + common.REPO],
                     irx=['-fno-inline'], steps=40000000)
    diag.run(rep, h, scen(h),
             {2: 'a response file for every function', 3: 'header names function and precision', 4: 'number of rows', 5: 'arguments inside the interval of the function',
              6: 'recorded value is the function of the recorded argument', 7: 'nothing written without a run name'},
             'the benchmark program runs symbolically from its command line to the files it writes, with an unknown random generator; mathematical '
             'functions are uninterpreted; the queries ask for draws where a file holds something else than the function of its name', diag.ASSUME +
             ['1..3 arguments per function', 'the mathematical functions themselves are the subject of the other properties'])


def c31(rep):
    h = diag.Harness('C31', 'help.cpp')
    diag.run(rep, h, scen(h),
             {1: 'help lists every option in order', 2: 'asking for help is accepted', 3: 'help for one option', 4: 'message of a refused command line', 5: 'command line refused or accepted'},
             'the option parser runs symbolically with unknown option names; the queries ask for names whose help or message is another text', diag.ASSUME +
             ['five declared options; names of up to 6 unknown bytes for the help of one option, up to 5 on the command line'])


if __name__ == '__main__':
    p = sys.argv[1]
    common.main(p, 'other', globals()[p.lower()])
