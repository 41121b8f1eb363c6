"""Which harness entries decide which property, within which bounds."""


class H:
    """One harness entry. quick/thorough: lists of parameter vectors."""
    def __init__(self, crate, entry, quick='0', thorough=None, real=False, cover=(), bounds='', stubs=(), rlimit=200_000_000, steps=20_000_000, secs=400, ids=None, noassert=False):
        one = lambda x: [x] if isinstance(x, str) else list(x)
        self.crate, self.entry, self.real, self.cover, self.bounds = crate, entry, real, list(cover), bounds
        self.quick = one(quick)
        self.thorough = one(thorough if thorough is not None else quick)
        self.stubs, self.rlimit, self.steps, self.secs, self.noassert = list(stubs) or (['RandomState&hash_one=zero'] if crate == 'ext' else []), rlimit, steps, secs, noassert
        self.ids = ids or {}


class P:
    def __init__(self, harnesses, code, assumptions=()):
        self.harnesses, self.code, self.assumptions = harnesses, list(code), list(assumptions)


HASH = ['RandomState&hash_one=zero']
REAL = 'floating point is decided as exact real arithmetic: rounding, overflow, NaN and infinities are outside the claim'
PROPS = {}

# ------------------------------------------------------------------ statistics
PROPS['C01'] = P([
    H('stats', 'stats_pass1', '5', '9', real=True, cover=[0, 1, 5], bounds='up to n values, any reals'),
    H('stats', 'stats_comb1', '5', '8', real=True, cover=[1], bounds='up to n values, every split point'),
    H('stats', 'stats_pass2', '4', '8', real=True, cover=[0, 1, 4], bounds='up to n pairs, any reals'),
    H('stats', 'stats_comb2', '4', '7', real=True, cover=[1], bounds='up to n pairs, every split point'),
    H('stats', 'stats_offset2', '4', '7', real=True, cover=[1], bounds='up to n pairs, any offset'),
    H('stats', 'stats_read1', '0', real=True, cover=[0, 1, 2, 3, 4], bounds='count up to 4, sums arbitrary'),
    H('stats', 'stats_read2', '0', real=True, cover=[0, 1, 2, 3, 10, 11, 12], bounds='count up to 3, sums arbitrary'),
], ['stats_agg'], [REAL])
PROPS['C02'] = P([
    H('stats', 'stats_remove1', '5', '8', real=True, cover=[1, 2], bounds='window of up to n values'),
    H('stats', 'stats_uncomb1', '5', '8', real=True, cover=[1, 2], bounds='up to n values in two partials'),
    H('stats', 'stats_remove2', '4', '7', real=True, cover=[1, 2], bounds='window of up to n pairs'),
    H('stats', 'stats_uncomb2', '4', '7', real=True, cover=[1, 2], bounds='up to n pairs in two partials'),
], ['stats_agg'], [REAL])

# ------------------------------------------------------------------ counters and gauges
PROPS['C03'] = P([
    H('counter', 'counter_seq', '5', '7', real=True, cover=[1, 2], bounds='up to n points at fixed increasing times, any values'),
    H('counter', 'counter_split', '5', '6', real=True, cover=[1], bounds='up to n points, every split'),
    H('counter', 'counter_split3', '5', '6', real=True, cover=[1, 2], bounds='n points in three partials, both associations'),
    H('counter', 'counter_overlap', '4', '5', real=True, cover=[1, 2], bounds='partials in the wrong order or sharing a point'),
    H('counter', 'gauge_seq', '5', '7', real=True, cover=[2], bounds='up to n points'),
    H('counter', 'gauge_split', '5', '7', real=True, cover=[1], bounds='up to n points, every split'),
    H('counter', 'gauge_split3', '5', '7', real=True, cover=[1, 2], bounds='n points in three partials'),
    H('counter', 'gauge_overlap', '4', '5', real=True, cover=[1, 2], bounds='partials in the wrong order or sharing a point'),
], ['counter_agg', 'stats_agg'], [REAL])
PROPS['C04'] = P([
    H('counter', 'counter_stale', '4', '6', real=True, cover=[1, 2], bounds='history of up to n points, then one late or duplicate-time point'),
    H('counter', 'gauge_stale', '4', '6', real=True, cover=[1, 2], bounds='history of up to n points, then one late or duplicate-time point'),
], ['counter_agg'], [REAL])
PROPS['C05'] = P([
    H('counter', 'counter_read', '0', real=True, cover=[1, 2, 3, 4], bounds='1 to 4 points, any values'),
    H('counter', 'counter_prom', '0', real=True, cover=[1, 2, 3], bounds='1 to 3 points, 16 placements of the bounds'),
    H('counter', 'counter_prom_invalid', '0', real=True, cover=[1], bounds='2 points, any 40-bit bounds, present or absent'),
    H('counter', 'counter_range', '0', real=True, cover=[1, 2, 3], bounds='any 62-bit ends, any 64-bit instant'),
    H('counter', 'counter_bounds', '0', real=True, cover=[1, 2], bounds='two one-point partials, any 40-bit bounds and times'),
], ['counter_agg'], [REAL])

# ------------------------------------------------------------------ the extension's SQL-level functions, with the server stubbed
PG = 'PostgreSQL itself is replaced by the stand-ins in harness/ext/bin/shims.rs (memory contexts as malloc, by-value 8-byte types, interval addition for intervals of microseconds)'
PROPS['C12'] = P([
    H('ext', 'candlestick_seq', '3', '4', cover=[1, 2], bounds='up to n ticks in any order of times, prices from a small range'),
    H('ext', 'candlestick_split', '3', '4', cover=[1, 2, 3, 4], bounds='up to n ticks in two partials: combine and rollup'),
    H('ext', 'candlestick_volume', '3', '4', real=True, cover=[1, 2, 3], bounds='up to n ticks, any real prices and volumes'),
    H('ext', 'candlestick_given', '0', real=True, cover=[1, 2, 3], bounds='candlesticks given by open/high/low/close, any real prices'),
    H('ext', 'arr_candlestick', '0', cover=[1], bounds='arrow and function forms, any two candlesticks'),
], ['candlestick'], [PG, REAL + ' (volume harnesses only)'])
_n = [H('ext', 'arr_nmost', '0', cover=[1, 2, 3, 4, 5, 6], bounds='arrow and function forms, three values of each type')]
for _t in ('float', 'int', 'time'):
    for _d in ('max', 'min'):
        _n += [H('ext', 'nmost_%s_%s' % (_t, _d), '3,2', '4,3', cover=[1, 2]),
               H('ext', 'nmost_%s_%s_combine' % (_t, _d), '3,2', '4,3', cover=[1, 2, 3]),
               H('ext', 'nmost_%s_%s_rollup' % (_t, _d), '3,2', '4,3', cover=[1, 2]),
               H('ext', 'nmost_by_%s_%s' % (_t, _d), ['3,2,0', '3,2,1', '3,2,2'] if _t == 'float' else '3,2,1', ['4,3,0', '4,3,1', '4,3,2'], cover=[1, 2]),
               H('ext', 'nmost_by_%s_%s_rollup' % (_t, _d), ['3,2,0', '3,2,1', '3,2,2'] if _t == 'int' else '3,2,1', ['4,3,0', '4,3,1', '4,3,2'], cover=[1])]
PROPS['C13'] = P(_n, ['nmost'], [PG])
PROPS['C14'] = P([
    H('ext', 'freq_seq', ['5,0', '5,1'], ['6,0', '6,1', '6,2'], cover=[1], bounds='up to n values from a small range; frequencies 1/2, 1/3, 1/4'),
    H('ext', 'freq_split', ['5,0', '5,1'], ['6,0', '6,1', '6,2'], cover=[1, 2, 3], bounds='up to n values in two partials: combine and rollup'),
    H('ext', 'freq_more', '5,0', ['6,0', '6,1'], cover=[1], bounds='counting on after combining'),
    H('ext', 'freq_any', '5,0', ['6,0', '6,1'], cover=[1, 2], bounds='the polymorphic aggregate over an 8-byte type'),
    H('ext', 'freq_mcv', '5,0', '6,0', cover=[1, 2, 10001], bounds='mcv_agg for the single most common value'),
    H('ext', 'freq_mcv2', '4,0', '6,0', cover=[1, 2, 3, 10001], bounds='mcv_agg for the two most common values'),
    H('ext', 'freq_travel', '3', '4', cover=[1, 2, 3], secs=800, bounds='up to n bigints or texts in two partial states that travel as bytes, combine and go on'),
    H('ext', 'freq_text', ['3,0', '3,1'], ['4,0', '4,1', '4,2'], cover=[1, 2, 3], bounds='up to n texts of one or two letters'),
], ['frequency'], [PG, 'hashing is stubbed by a constant, so every value collides', 'the output function of a type and its input function are inverse; no collation'])
PROPS['C15'] = P([
    H('ext', 'hb_seq', '3', '4', cover=[1, 2], bounds='up to n heartbeats in any order over a stretch of 100 instants, any instant asked about'),
    H('ext', 'hb_rollup', '3', '4', cover=[1, 2], bounds='n heartbeats in two aggregates over the same, adjacent, separate or overlapping stretches'),
    H('ext', 'hb_rollup3', '0', cover=[1, 2], bounds='three adjacent one-heartbeat aggregates, any order and association'),
    H('ext', 'hb_interp', '3', '4', cover=[1], bounds='n heartbeats in two stretches'),
    H('ext', 'hb_trim', '2', '3', cover=[1, 2, 3], bounds='up to n heartbeats, any sub-stretch'),
    H('ext', 'hb_cut', '2', '3', cover=[1, 2, 3, 4], bounds='up to n heartbeats cut anywhere and put together again'),
    H('ext', 'hb_trim_arrow', '0', cover=[1], bounds='one heartbeat, any sub-stretch around timestamp zero'),
    H('ext', 'hb_outside', '0', cover=[10001], bounds='any instant outside'),
], ['heartbeat_agg'], [PG])
PROPS['C16'] = P([
    H('ext', 'st_seq', ['2,1000', '3,8'], ['2,1000', '3,8', '4,8'], cover=[1, 2], bounds='up to n records at any of that many instants and in any order, three integer states, any instant and state asked about, one or two partials'),
    H('ext', 'st_range', ['2,1000', '3,8'], ['2,1000', '3,8', '4,10'], cover=[1, 2], bounds='up to n records, any stretch, bounded or not'),
    H('ext', 'st_compact', ['2,1000', '3,8'], ['2,1000', '4,10'], cover=[1], bounds='up to n records'),
    H('ext', 'st_roll', ['2,1000', '3,8'], ['2,1000', '4,10'], cover=[1, 2, 3, 4], bounds='n records in two consecutive aggregates, any order of arrival, rollup and combine'),
    H('ext', 'st_overlap', '0', cover=[10001], bounds='two overlapping aggregates of two records'),
    H('ext', 'st_interp', ['2,1000', '3,8'], ['2,1000', '4,10'], cover=[1, 2], bounds='n records in a preceding and a current aggregate, any stretch'),
    H('ext', 'st_text', '3', '4', cover=[1, 2, 3], bounds='up to n records of four names that contain each other'),
    H('ext', 'st_text_interp', '2', '3', cover=[1, 2], bounds='n records of such names in a preceding and a current aggregate, any stretch'),
    H('ext', 'st_compact_roll', ['2,1000', '3,8'], ['2,1000', '4,10'], cover=[1, 2, 3], bounds='n records in two consecutive compact aggregates'),
    H('ext', 'arr_state_agg', '0', cover=[1], bounds='arrow and function forms, three records'),
    H('ext', 'st_clash', '0', cover=[10001], bounds='two states at one instant'),
], ['state_aggregate'], [PG, 'the hash of a state is stubbed by a constant, so all states collide'])
PROPS['C17'] = P([
    H('ext', 'arr_timevector', '0', cover=[1], bounds='arrow and function form of unnest, three points'),
    H('ext', 'tv_seq', '3', '5', cover=[1, 2, 3], bounds='up to n points at any times, null or not; aggregated, combined at any split, rolled up'),
    H('ext', 'tv_long', '1', '2', bounds='9 points (n more than 8), any split, any of the last ones null'),
    H('ext', 'tv_sort', '3', '5', bounds='up to n points at any times, null or not'),
    H('ext', 'tv_asof', '3,3', '4,4', cover=[1, 2], bounds='sorted series of up to n and m points at any times'),
], ['time_vector'], [PG])
PROPS['C18'] = P([
    H('ext', 'tv_filter', '2', '4', cover=[1, 2, 3], bounds='up to n points, null or not, four lambdas over value and time'),
    H('ext', 'tv_delta', '3', '5', cover=[1, 2, 3], bounds='up to n sorted points, possibly filtered before'),
    H('ext', 'tv_map', '2', '4', bounds='up to n points, lambdas that make new values, times or both'),
    H('ext', 'tv_arith', '1', '2', bounds='up to n points, two arithmetic steps one after the other or as one pipeline; IEEE arithmetic'),
    H('ext', 'tv_fill', '3', '4', cover=[1, 3], bounds='up to n sorted points at any times, any interval that needs at most two new points per gap'),
    H('ext', 'tv_fill_lin', '3', '4', real=True, cover=[2], bounds='up to n points, any real values, gaps up to 5'),
    H('ext', 'tv_fill_bad', '0', cover=[10001], noassert=True, bounds='any interval that is not positive'),
    H('ext', 'tv_finish', '3', '5', real=True, bounds='up to n points, any real values and operands, two steps and a finishing step'),
    H('ext', 'tv_counter', '3', '5', real=True, cover=[1], bounds='up to n points, any real values that come out not negative'),
    H('ext', 'tv_sketch', '3', '5', cover=[2, 3], bounds='up to n points with one of three values, two steps and hyperloglog or percentile_agg'),
], ['time_vector'], [PG, REAL + ' (fill_lin, finish and counter only)'])
PROPS['C19'] = P([
    H('ext', 'lttb_area', '5', '7', real=True, cover=[1, 2], bounds='up to n+1 points, any real values, every resolution'),
    H('ext', 'lttb_order', '4', '6', bounds='up to n points at four times in any order'),
    H('ext', 'lttb_far', '6', '6', real=True, bounds='n points, any real values, at four distances from the epoch'),
    H('ext', 'lttb_gap', '6', '8', real=True, cover=[1], bounds='up to n points with or without gaps between them, resolutions 3 to 5'),
], ['lttb'], [PG, REAL])
PROPS['C20'] = P([
    H('ext', 'lam_num', '0', real=True, bounds='17 expressions, any real value'),
    H('ext', 'lam_prec', '0', real=True, bounds='48 expressions of two operators, any real value'),
    H('ext', 'lam_truth', '0', cover=[10001], bounds='18 conditions, any double but NaN, any time'),
    H('ext', 'lam_times', '0', bounds='6 expressions over times, intervals and points'),
    H('ext', 'lam_refused', '0', cover=[10001], noassert=True, bounds='16 ill-formed expressions'),
], ['time_vector'], [PG, REAL + ' (num and prec only)', 'times and intervals are read and calculated by stand-ins for integer microseconds'])
PROPS['C06'] = P([
    H('ext', 'twa_seq', '3', '4', real=True, cover=[1, 2, 3], bounds='up to n samples at increasing times, any real values, in one or two partials'),
    H('ext', 'twa_units', '0', real=True, bounds='every unit of the integral'),
    H('ext', 'twa_split', '4', '5', real=True, cover=[1, 2, 3], bounds='n samples split anywhere, rollup and combine in any order'),
    H('ext', 'twa_interp', '0', real=True, cover=[1, 2, 3], bounds='buckets with and without a preceding and a following bucket'),
    H('ext', 'twa_buckets', '0', real=True, bounds='consecutive buckets of an interpolated series'),
    H('ext', 'twa_bounds', '2', '3', real=True, cover=[1, 2], bounds='n samples, bounds before and after'),
    H('ext', 'twa_refused', '0', cover=[10001], bounds='overlapping partials and mixed methods'),
    H('ext', 'twa_outside', '0', cover=[10001], bounds='bounds within the samples'),
    H('ext', 'twa_any', '2', '2', bounds='two samples at any times'),
], ['time_weighted_average'], [PG, REAL])
PROPS['C25'] = P([
    h for m in 'cg' for h in [
        H('ext', 'met_%s_seq' % m, '2', '3', real=True, cover=[1, 2], bounds='up to n+1 samples of any real values; every accessor, in both call forms'),
        H('ext', 'met_%s_split' % m, '3', '4', real=True, cover=[1, 2, 3], bounds='n samples split anywhere, combine and rollup in any order'),
        H('ext', 'met_%s_extra' % m, '0', real=True, bounds='extrapolated delta and rate, any real values'),
        H('ext', 'met_%s_interp' % m, '0', real=True, cover=[1, 2], bounds='buckets with and without neighbours, any real values'),
        H('ext', 'met_%s_buckets' % m, '0', real=True, bounds='consecutive buckets of an interpolated series'),
        H('ext', 'met_%s_refused' % m, '0', cover=[10001], bounds='overlapping aggregates'),
        H('ext', 'met_%s_bounds' % m, '0', cover=[1, 2, 3], bounds='bounds that hold the samples, any placement'),
        H('ext', 'met_%s_bad' % m, '0', cover=[10001], bounds='samples outside the bounds'),
    ]
], ['counter_agg', 'gauge_agg'], [PG, REAL])
PROPS['C26'] = P([
    H('ext', 'stx_seq', '3,0', '4,0', real=True, cover=[1, 2], bounds='up to n values, any reals, with a null anywhere'),
    H('ext', 'stx_seq', '3,1', '4,1', cover=[1, 2], bounds='up to n values of three, doubles or bigints, in the moving-aggregate form'),
    H('ext', 'stx_window', '4,0', '5,0', real=True, cover=[1, 2], bounds='windows of any width sliding over n values, any reals'),
    H('ext', 'stx_window', '3,1', '4,1', cover=[1, 2], bounds='the same in the moving-aggregate form, values of three'),
    H('ext', 'stx_split', '3,0', '4,0', real=True, cover=[1, 2, 3, 4, 5], bounds='up to n values in three groups: partial states, bytes, rollup, and taking a group out again'),
    H('ext', 'stx_seq2', '3,0', '3,0', real=True, cover=[1, 2], bounds='up to n pairs, any reals, with missing halves'),
    H('ext', 'stx_seq2', '2,1', '3,1', cover=[1, 2], bounds='the same in the moving-aggregate form, values of two'),
    H('ext', 'stx_window2', '3,0', '4,0', real=True, cover=[1, 2], bounds='n pairs, one taken out'),
    H('ext', 'stx_window2', '3,1', '3,1', cover=[1, 2], bounds='the same in the moving-aggregate form'),
    H('ext', 'stx_split2', '3,0', '3,0', real=True, cover=[1, 2, 3, 4], bounds='up to n pairs in two groups'),
    H('ext', 'stx_read', '0', real=True, cover=[1, 2, 3, 4], bounds='any moments of up to 3 values, six spellings of the method'),
    H('ext', 'stx_read2', '0', real=True, cover=[1, 2, 3, 4], bounds='the same in two dimensions'),
    H('ext', 'stx_line', '0', real=True, cover=[1, 2, 3, 4], bounds='the regression of any moments of up to 3 pairs'),
    H('ext', 'stx_big', '0', cover=[1, 10001], bounds='any bigint that does not fit, the outermost that do'),
    H('ext', 'stx_method', '0', cover=[10001], bounds='four unknown methods'),
], ['stats_agg'], [PG, REAL])
# ------------------------------------------------------------------ approximations
PROPS['C07'] = P([
    H('ext', 'hll_forms', ['4,1,64,1', '4,2,2,6', '4,3,1,3', '7,3,0,3'], ['4,2,64,1', '5,2,64,1', '4,3,2,6', '4,4,1,3', '8,3,1,3'], cover=[1], secs=800, bounds='n hashes: one or two of any 64 bits, or with the register and the first bit after it at the borders and w more bits open; 2^p registers'),
    H('ext', 'hll_merge', ['4,2,1,6', '5,2,0,6', '6,3,0,3'], ['4,2,3,6', '4,3,1,3', '4,4,0,3', '6,3,0,4'], cover=[1, 2, 3, 4], secs=800, bounds='n such hashes in two sketches, sparse or dense each'),
    H('ext', 'hll_sql', ['4,2,1,3'], ['4,2,2,6', '4,3,1,3', '5,3,0,4'], cover=[1, 2, 3, 100, 1100, 2100], secs=800, bounds='n such hashes and nulls through the aggregate: in sequence, in two combined states sent as bytes, or rolled up'),
    H('ext', 'hll_sql', ['4,3,0,3'], ['4,4,0,3', '4,5,0,2'], cover=[1, 2, 3, 100, 101], secs=800, bounds='the same with enough of them for the dense form'),
    H('ext', 'hll_many', '5', '9', cover=[1, 2], bounds='2^4 to 2^(4+k-1) registers all in use, of one rank up to 12 but one'),
    H('ext', 'hll_size', '0', cover=[1, 10001], bounds='any size from 9 to 2^18, and some outside'),
    H('ext', 'hll_mixed', '0', cover=[2, 10001], bounds='sketches of other sizes or types, sparse or dense'),
], ['hyperloglog', 'hyperloglogplusplus'], [PG])
PROPS['C08'] = P([
    H('ext', 'enc_zig', '0', bounds='every 64-bit number'),
    H('ext', 'enc_diff', '3', '4', bounds='n numbers of any value, in delta form and back'),
    H('ext', 'enc_one', '0', bounds='one number of any value, as variable-length bytes and back'),
    H('ext', 'enc_all', '2', '3', cover=[1, 2, 3, 4], bounds='n numbers of any value through the whole encoding'),
], ['encodings'], [])
PROPS['C09'] = P([
    H('ext', 'udd_merge', ['3,2,2', '3,3,3'], ['3,2,3', '3,2,4', '3,3,4', '4,3,3', '4,4,3'], cover=[1], secs=800, bounds='n one-value sketches of at most m buckets with keys of b bits and either sign, merged in any grouping'),
    H('ext', 'udd_seq', ['2,3', '2,7'], ['3,3', '3,7'], cover=[1], bounds='up to n values of six, nulls, in one group or two, partial states, bytes, rollup, every accessor'),
    H('ext', 'udd_nothing', '0', bounds='no values'),
    H('ext', 'udd_store', ['1,64', '2,10'], ['1,64', '2,12', '3,8'], cover=[1], bounds='n buckets with keys and counts of b bits'),
    H('ext', 'udd_quantile', '0', real=True, bounds='every percentile of up to 4 buckets with counts up to 2'),
], ['uddsketch', 'udd-sketch'], [PG])
PROPS['C10'] = P([
    H('ext', 'tdg_seq', ['4,2', '4,3'], ['5,2', '5,3', '6,3'], real=True, cover=[1], bounds='n values of any size into digests of m centroids, one group or two, partial states, bytes, rollup'),
    H('ext', 'tdg_batch', ['7,3', '9,2', '12,5'], ['7,3', '9,2', '12,5', '20,5', '30,10'], real=True, cover=[1, 2], bounds='n ascending values of any size in one batch'),
    H('ext', 'tdg_merge', '2,3', '3,3', real=True, cover=[1], bounds='two digests of up to m centroids of any means and weights up to w, and an empty one'),
    H('ext', 'tdg_builders', ['3,2', '4,3'], ['4,2', '5,3'], real=True, cover=[1], bounds='n values split over two builders anywhere, and one more'),
    H('ext', 'tdg_quantile', '0', real=True, cover=[1], bounds='any two percentiles of digests of up to 3 centroids with weights up to 3'),
    H('ext', 'tdg_rank', '0', real=True, cover=[1], bounds='the ranks of any two values in such digests'),
    H('ext', 'tdg_inverse', '0', real=True, cover=[1], bounds='the rank of any percentile of such digests'),
    H('ext', 'tdg_store', '2', '3', real=True, cover=[1], bounds='any digest of up to n centroids, stored and read back in three ways'),
    H('ext', 'tdg_nothing', '0', real=True, bounds='no values'),
], ['tdigest', 't-digest'], [PG, REAL])
PROPS['C11'] = P([
    H('ext', 'cms_seq', ['2,0', '2,2'], ['3,0', '3,1', '3,2'], cover=[1], secs=800, bounds='up to n of 32 texts (30 letters, the empty and a longer one), any of them looked up; sketch 4x1, 3x2 or 4x2'),
    H('ext', 'cms_split', '2,0', ['2,0', '2,1', '3,0'], cover=[1, 2], secs=800, bounds='n texts in two partial sketches, combined, also through bytes'),
    H('ext', 'cms_subtract', '2,1', '2,1', cover=[], bounds='one sketch taken out of another again'),
    H('ext', 'cms_mixed', '0', cover=[10001], bounds='sketches of different sizes'),
], ['countminsketch'], [PG])
PROPS['C27'] = P([
    H('ext', 'fin_numbers', '3,0', '4,0', real=True, cover=[100 + k for k in range(13)], bounds='n values of any size (three for aggregates with attached data), looked at after any of them'),
    H('ext', 'fin_wholes', '3,0', '4,0', cover=[100 + k for k in range(20)], secs=800, bounds='n bigints or times of 8 bits (three values for some aggregates), looked at after any of them'),
    H('ext', 'fin_series', '3,0', '3,0', real=True, cover=[100 + k for k in range(18)], bounds='n points at fixed times in any order of arrival, any values, looked at after any of them'),
    H('ext', 'fin_series', ['4,10', '4,11'], ['4,10', '4,11', '4,1', '4,5', '4,9'], real=True, bounds='the same for one of the aggregates'),
], ['nmost', 'state_aggregate', 'tdigest', 'uddsketch', 'candlestick', 'counter_agg', 'gauge_agg', 'time_weighted_average', 'heartbeat_agg', 'frequency', 'countminsketch', 'hyperloglog', 'asap', 'lttb', 'time_vector', 'stats_agg'], [PG, REAL])
_f = ['RandomState&hash_one=zero', 'fmt&format_inner=format']
PROPS['C21'] = P([H('ext', 'sto_' + n, q, '300,0', cover=c, stubs=_f, bounds='lists of up to %s elements, every byte anything' % b) for n, q, c, b in [
    ('plain', '8,0', [1, 10001, 10002], 'no'), ('lists', '300,0', [1, 3, 10001, 10002], '2'), ('counts', '24,0', [1, 3, 10001, 10002], '2 (texts of 9 bytes)'),
    ('nmost', '24,0', [1, 3, 10001, 10002], '2'), ('states', '24,0', [1, 3, 10001, 10002], '2'), ('pipelines', '24,0', [1, 3, 10001, 10002], '2 (lambdas of 3 bytes)')]],
    ['type_builder', 'flat_serialize', 'datum_utils'], [PG])
