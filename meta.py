"""What each property says (properties.jsonl and MANIFEST.json are written from this by gen.py)."""
META = {}
NOT_APPLICABLE = {}


def prop(i, title, statement, for_all, tests, files, mechanism, note, over=('inputs',), na=None):
    META[i] = dict(title=title, statement=statement, for_all=for_all, tests=tests, files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], note=note, over=list(over), na=na)


TRUST = 'Trusts z3, the executor\'s reading of LLVM IR (cross-checked on every run: solver-chosen inputs are replayed on the native binary linked from the same IR) and rustc\'s code generation below IR. '
REALS = 'Floating point is decided as exact real arithmetic, so rounding, overflow, NaN and infinities are outside the claim. '

prop('C01', 'A statistical summary equals the textbook statistics of its values',
     'A one- or two-variable statistical summary built from any sequence of values, in one pass or from partial summaries merged at any split, reports the count, sums, mean, variance, standard deviation, skewness, kurtosis, covariance, correlation, slope, intercepts and determination of exactly those values. '
     'Accessors are empty exactly where the statistic is undefined. Shifting every y by a constant through the offset operation gives the summary of the shifted values.',
     'every sequence of real values up to the bounded length, every split point',
     'The tests compare a handful of fixed vectors; merging is checked on a few splits. The identities must hold for all values and splits, including zero counts and equal values.',
     ['crates/stats-agg/src/stats1d.rs', 'crates/stats-agg/src/stats2d.rs', 'crates/stats-agg/src/lib.rs', 'extension/src/stats_agg.rs'],
     [('Youngs-Cramer accumulation and combination', 'StatsSummary1D/2D::accum, combine, offset'), ('accessors', 'StatsSummary1D/2D avg, var_pop, …')],
     TRUST + REALS + 'Bounded: up to 5 values (9 thorough).', ['inputs', 'histories'])
prop('C02', 'Removing values or partials from a statistical summary undoes their addition',
     'Taking a value or a partial summary out of a statistical summary gives the summary of the remaining values, so that a moving-window aggregate equals the aggregate recomputed over the window. Removing the last value leaves the empty summary, and a removal that cannot be done by update is refused rather than answered wrongly.',
     'every window of real values up to the bounded length',
     'Moving-window tests use a few windows; the inverse transition must invert the forward one for all values.',
     ['crates/stats-agg/src/stats1d.rs', 'crates/stats-agg/src/stats2d.rs'],
     [('inverse transition', 'StatsSummary1D/2D::remove'), ('inverse combine', 'remove_combined')],
     TRUST + REALS + 'Bounded: windows up to 5 values (8 thorough).', ['inputs', 'histories'])
prop('C03', 'Counter and gauge summaries do not depend on how the series was split',
     'A counter or gauge summary of a time-ordered series has the same first, second, second-to-last and last point, resets, changes, delta and regression statistics whether it was built point by point or merged from partial summaries of consecutive stretches, in any association. '
     'A counter that falls counts as a reset that continues from zero; a gauge never resets. Merging partials out of time order or sharing a point is refused and changes nothing.',
     'every series of real values at increasing times up to the bounded length, every way to cut it in two or three',
     'Property tests in the crate sample random series with a few splits and tolerate error; boundary cases (reset exactly at the cut, one-point partials, equal values) are rare there.',
     ['crates/counter-agg/src/lib.rs', 'extension/src/counter_agg.rs', 'extension/src/gauge_agg.rs'],
     [('accumulation', 'MetricSummary add_point'), ('merge', 'CounterSummaryBuilder/GaugeSummaryBuilder::combine')],
     TRUST + REALS + 'Bounded: up to 5 points (7 thorough), timestamps at fixed increasing instants.', ['inputs', 'histories'])
prop('C04', 'A late or repeated point never changes a counter or gauge summary',
     'A point older than the newest one is refused and leaves the summary unchanged. A point at the same time as the newest one is ignored and leaves the summary unchanged.',
     'every history up to the bounded length, every late or repeated point',
     'The tests only check the returned error, never the state left behind. The pinned code did count a reset for such points (repaired, see DESIGN.md).',
     ['crates/counter-agg/src/lib.rs'], [('order check before update', 'add_point, combine')],
     TRUST + REALS + 'Bounded: histories up to 4 points (6 thorough).', ['inputs', 'histories'])
prop('C05', 'Counter deltas, rates, extrapolation and bounds follow their definitions',
     'Delta, rate, instantaneous deltas and rates, elapsed time and the extrapolated delta and rate are the ones their definitions give for the series, and absent when there are too few points or no usable bounds. A range contains exactly the instants between its ends, the union of ranges covers both, a duration is the distance between finite ends in order, and bounds are valid exactly when they contain the summarised points.',
     'every series up to four points, every pair of possibly open bounds',
     'Tests use a few examples; open ends, reversed ends, single points and extreme bounds are not covered.',
     ['crates/counter-agg/src/lib.rs', 'crates/counter-agg/src/range.rs'],
     [('extrapolation', 'prometheus_delta'), ('ranges', 'I64Range')],
     TRUST + REALS + 'Bounded: up to 4 points; range ends any 62-bit value.')

EXT = 'The SQL-level functions run as compiled, with PostgreSQL\'s own services replaced by small stand-ins (listed in DESIGN.md). '
prop('C12', 'A candlestick summarises exactly its ticks, however they were grouped',
     'A candlestick built from any set of ticks has the open of the earliest tick, the close of the latest, the highest and lowest price with a time at which that price occurred, and the total volume and volume-weighted average price of the ticks. '
     'Combining partial aggregates or rolling up candlesticks gives the candlestick of all their ticks. An aggregate over nothing is absent, absent inputs are skipped, and a tick without volume leaves volume and vwap absent.',
     'every set of ticks up to the bounded number, every order of arrival, every grouping in two',
     'The SQL tests feed a few ordered series; arrival order, equal prices, missing volumes and groupings are not explored.',
     ['extension/src/candlestick.rs'],
     [('transition and combine', 'Candlestick::add_tick_data, Candlestick::combine'), ('rollup', 'candlestick_rollup_trans')],
     TRUST + EXT + 'Bounded: up to 3 ticks (4 thorough).', ['inputs', 'histories'])
prop('C13', 'min_n and max_n report the n smallest or largest values, however grouped',
     'A min_n or max_n aggregate (over integers, floats or times, with or without attached data) reports exactly the n smallest or largest of its non-null values in order, all of them when there are fewer, and each with its own attached datum. '
     'Combining partial aggregates and rolling up finished ones gives the same as one aggregate over all values. A rollup of aggregates made for different n keeps the smallest n.',
     'every multiset of values up to the bounded number, every order, every grouping in two, every capacity up to the bound',
     'The tests use a fixed set of values; repeated values, partly filled aggregates and mixed capacities are not explored. The pinned code dropped values when rolling up aggregates that were not full (repaired, see DESIGN.md).',
     ['extension/src/nmost.rs', 'extension/src/nmost/max_int.rs', 'extension/src/nmost/max_float.rs', 'extension/src/nmost/max_time.rs', 'extension/src/nmost/min_int.rs', 'extension/src/nmost/min_float.rs', 'extension/src/nmost/min_time.rs',
      'extension/src/nmost/max_by_int.rs', 'extension/src/nmost/max_by_float.rs', 'extension/src/nmost/max_by_time.rs', 'extension/src/nmost/min_by_int.rs', 'extension/src/nmost/min_by_float.rs', 'extension/src/nmost/min_by_time.rs'],
     [('bounded heap', 'NMostTransState::new_entry, combine'), ('attached data', 'NMostByTransState'), ('rollup', 'nmost_rollup_trans_function, nmost_by_rollup_trans_function')],
     TRUST + EXT + 'Bounded: up to 3 values, capacity up to 2 (4 and 3 thorough).', ['inputs', 'histories'])
prop('C14', 'Frequency aggregates keep every frequent value and never overstate a bound',
     'A frequency aggregate for frequency f reports every value that makes up at least f of the input, and for each value it reports the interval between its lower and upper frequency bound contains the true frequency. The same holds after combining partial aggregates, also ones that travelled as bytes, rolling up finished ones, and counting on afterwards. '
     'Asking for the most common values gives values that are at least that frequent, an mcv aggregate can always name the single most common value, and an aggregate over nothing is absent.',
     'every sequence of values up to the bounded length, every grouping in two, for several frequencies',
     'Tests use one fixed data set; the guarantee has to hold for adversarial orders in which values displace each other. The pinned code failed for mcv_agg of one value (repaired, see DESIGN.md).',
     ['extension/src/frequency.rs'],
     [('space-saving counters', 'SpaceSavingTransState::add, combine, serialize, deserialize'), ('bounds', 'freq_iter, max_frequency, min_frequency'), ('capacity for a number of values', 'mcv_agg_with_skew_from_type_id')],
     TRUST + EXT + 'Bounded: up to 5 values (6 thorough). The hash is stubbed by a constant, so lookups rest on equality. The type output and input functions that a transition state in bytes goes through are taken to be inverse; collations are outside the claim.', ['inputs', 'histories'])
prop('C15', 'Heartbeat uptime and downtime are exactly the stretches the heartbeats imply',
     'Over the covered stretch an instant counts as live exactly when a heartbeat occurred at most the liveness interval before it. Live ranges, dead ranges, uptime, downtime, gap counts and point queries all agree with that, for heartbeats in any order of arrival. '
     'Rolling up aggregates over adjacent or separate stretches gives the aggregate over the whole, overlapping ones are refused, interpolation carries liveness over from the preceding stretch, and trimming to a sub-stretch reports the same liveness inside it.',
     'every set of heartbeats up to the bounded number, any order, any instant, any sub-stretch, every grouping in two or three',
     'The tests use a few fixed series; trimming to empty stretches, boundaries that touch and heartbeats at the ends are not explored. Two faults in the pinned code were repaired (see DESIGN.md).',
     ['extension/src/heartbeat_agg.rs', 'extension/src/heartbeat_agg/accessors.rs'],
     [('interval bookkeeping', 'HeartbeatTransState::process_batch, combine_intervals'), ('reading', 'HeartbeatAgg::sum_live_intervals, interpolate_start, trim_to')],
     TRUST + EXT + 'Bounded: up to 3 heartbeats (4 thorough) over a stretch of 100 instants.', ['inputs', 'histories'])
prop('C16', 'A state aggregate attributes every instant to the state last recorded',
     'Between the first and the last record every instant belongs to the state of the latest record at or before it. Durations, timelines, state periods and point queries agree with that for records in any order of arrival, for integer and text states, and for any sub-stretch. '
     'Compact aggregates report the same durations. Combining partials and rolling up consecutive aggregates gives the aggregate of all records, overlapping aggregates are refused, two different states at one instant are refused, and interpolation carries the last state over from the preceding aggregate.',
     'every set of records up to the bounded number, any order, any instant, any stretch, every grouping in two',
     'The SQL tests use short fixed series with well-separated state names. States whose names contain each other, stretches that touch records and arrival order are not explored.',
     ['extension/src/state_aggregate.rs', 'extension/src/state_aggregate/accessors.rs', 'extension/src/state_aggregate/rollup.rs'],
     [('sorting and durations', 'StateAggTransState::sort, make_durations'), ('rollup', 'RollupTransState::merge'), ('interpolation', 'StateAgg::interpolate, interpolated_duration_in')],
     TRUST + EXT + 'Bounded: up to 2 records within 1000 instants and up to 3 within 8 (4 within 10 thorough). The hash is stubbed by a constant, so lookups rest on equality.', ['inputs', 'histories'])
prop('C17', 'A timevector holds exactly its points, in order, with their nulls',
     'A timevector aggregated from any sequence of points holds exactly those points in order of arrival, marks exactly the null ones, and claims to be sorted exactly when it is. The same holds for partial aggregates combined at any split and for rolled-up timevectors. '
     'Unnesting gives the points back. Sorting orders the points by time, keeps points of one instant in their order and moves null marks along. An as-of join pairs every point with the latest point of the other series at or before it.',
     'every sequence of points up to the bounded length, at any times, null or not, every split',
     'The tests use five points without crossing a byte of the null bitmap, and never split a series with nulls.',
     ['extension/src/time_vector.rs', 'extension/src/time_vector/pipeline/sort.rs'],
     [('aggregation', 'timevector_trans_inner, combine'), ('sorting', 'sort_timevector'), ('as-of join', 'asof_join')],
     TRUST + EXT + 'Bounded: up to 3 points (5 thorough), 9 for the null bitmap.', ['inputs', 'histories'])
prop('C18', 'Every pipeline element transforms exactly the points it should',
     'Filtering keeps exactly the points for which the condition holds, with their null marks. Delta gives the differences of neighbours. Mapping and arithmetic change values and times as written and leave the rest alone. Filling adds points only at multiples of the interval inside gaps, with the carried, interpolated or nearest value. '
     'A pipeline does the same as its elements one after the other, and with a finishing step the same as that step on the result. No element leaves a series that wrongly claims to be sorted or free of nulls.',
     'every series up to the bounded length, at any times, any operands',
     'Every element has one test with five fixed points. Four faults in the pinned code (null marks after a filter, delta of an empty series, endless filling, stale sorted mark) were repaired, see DESIGN.md.',
     ['extension/src/time_vector/pipeline.rs', 'extension/src/time_vector/pipeline/filter.rs', 'extension/src/time_vector/pipeline/delta.rs', 'extension/src/time_vector/pipeline/map.rs', 'extension/src/time_vector/pipeline/arithmetic.rs',
      'extension/src/time_vector/pipeline/fill_to.rs', 'extension/src/time_vector/pipeline/aggregation.rs', 'extension/src/time_vector/pipeline/expansion.rs'],
     [('dispatch', 'execute_pipeline_element, run_pipeline_elements'), ('elements', 'filter_lambda_over_series, timevector_delta, map_lambda_over_series, fill_to, arithmetic::apply'), ('finishing steps', 'finalize_with_*, arrow_run_pipeline_then_*')],
     TRUST + EXT + 'Bounded: up to 3 points (5 thorough). Mapping by a user-defined SQL function, power, logarithms and roots are outside the claim.', ['inputs', 'histories'])
prop('C19', 'LTTB keeps the ends and, from every bucket, the largest triangle',
     'Downsampling gives back a series no longer than asked for unchanged. Otherwise it gives exactly the requested number of points: the first, the last, and from every bucket in between a point of the input that spans the largest triangle with the previously chosen point and the average of the next bucket. '
     'The aggregate, the function and the pipeline element agree, the order of arrival does not matter, and the gap-preserving variant keeps both ends of every stretch and gives a subsequence of the input.',
     'every series of real values up to the bounded length, every resolution of at least 3',
     'The tests compare one fixed series. The pinned code overflowed when averaging the times of large buckets (repaired, see DESIGN.md).',
     ['extension/src/lttb.rs'], [('downsampling', 'lttb, lttb_ts'), ('gaps', 'gap_preserving_lttb_final_inner')],
     TRUST + EXT + REALS + 'Bounded: up to 6 points (8 thorough) at fixed times.')
prop('C20', 'A lambda expression means what its grammar says, for every value and time',
     'Evaluating a lambda over a value and a time gives the result of the expression with the usual precedence and association of arithmetic, comparison and boolean operators, brackets, negation, let-bound variables and functions. Expressions that do not parse or type-check are refused when the lambda is made.',
     'every value and time; expressions from a fixed set of shapes',
     'The tests trace a few expressions for one value and time.',
     ['extension/src/time_vector/pipeline/lambda.rs', 'extension/src/time_vector/pipeline/lambda/parser.rs', 'extension/src/time_vector/pipeline/lambda/executor.rs', 'extension/src/time_vector/pipeline/lambda/lambda_expr.pest'],
     [('parsing', 'parse_primary, build_binary_op, PREC_CLIMBER'), ('evaluation', 'ExpressionExecutor')],
     TRUST + EXT + REALS + 'Expressions are enumerated, values and times are symbolic. Transcendental functions are outside the claim.', ['inputs'])
prop('C06', 'Time-weighted averages are the area under the curve over its length',
     'The integral of a time-weighted aggregate is the area under the step function (LOCF) or the polyline (linear) through its points, in the unit asked for, and the average is that area divided by the time between the first and the last point. '
     'Neither the order of arrival, nor the grouping into partial states or finished summaries, nor reading the aggregate in between changes that; of several points at one time the first counts. '
     'Interpolating to the bounds of a bucket adds exactly the area up to the bounds, so the buckets of a gapless series add up to the whole. Overlapping summaries, mixed methods and buckets that do not contain the summary are refused.',
     'every series of real values up to the bounded length, every grouping in three, several placements of bucket bounds',
     'The tests use fixed series of integer values, and interpolate with one placement of the bounds. The pinned library lost the start bound when given both (repaired, see DESIGN.md).',
     ['crates/time-weighted-average/src/lib.rs', 'extension/src/time_weighted_average.rs', 'extension/src/time_weighted_average/accessors.rs'],
     [('summation', 'TimeWeightSummary::accum, combine'), ('bounds', 'TimeWeightSummary::with_bounds, with_prev, with_next'), ('transition and rollup', 'TimeWeightTransState::push_point, combine_points, combine_summaries'), ('interpolation', 'TimeWeightSummary::interpolate')],
     TRUST + EXT + REALS + 'Bounded: up to 4 points (5 thorough) at fixed times.', ['inputs', 'histories'])
prop('C25', 'Counter and gauge aggregates in SQL describe exactly the samples they were given',
     'For samples in any order of arrival, in partial states combined in any order or in finished aggregates rolled up, delta, rate, instantaneous deltas and rates, counts of samples, changes and resets, the regression and the first and last sample are those of the samples sorted by time, with resets counted up from zero for counters. '
     'Function and arrow form agree. Bounds given with the samples or afterwards are the half-open range they denote. Interpolating to a bucket counts up from zero after a reset, so the buckets of a gapless series add up to the total. Overlapping aggregates and samples outside the bounds are refused.',
     'every series of real values up to the bounded length, every order, every grouping in three, any bounds',
     'The tests use short fixed series with integer values and one kind of range.',
     ['extension/src/counter_agg.rs', 'extension/src/gauge_agg.rs', 'extension/src/counter_agg/accessors.rs', 'extension/src/range.rs', 'extension/src/accessors.rs'],
     [('transition', 'CounterSummaryTransState::push_point, combine_points, combine_summaries'), ('accessors', 'counter_agg_*, arrow_counter_agg_*'), ('bounds', 'get_range, I64Range'), ('interpolation', 'CounterSummary::interpolate')],
     TRUST + EXT + REALS + 'Bounded: up to 3 samples (4 thorough) at fixed times; bounds are any 40-bit instants. As its tests demand, the instantaneous changes of a gauge take a fall for a reset.', ['inputs', 'histories'])
prop('C26', 'Statistical aggregates in SQL are those of the values they were given',
     'stats_agg over doubles or bigints, in one dimension or two, describes exactly the non-null values (pairs without a missing half) it was given: their number, sums, and central moments. That holds for plain aggregation, for windows that slide over the values, for partial states combined in any order or passed through bytes, for rollup and for a summary taken out of a rollup again. '
     'Every accessor gives the statistic of its name and dimension, for the method named, and the function and arrow forms agree. Bigints that a double cannot hold and unknown methods are refused.',
     'every sequence of real values up to the bounded length, every grouping and window',
     'The tests compare against PostgreSQL on random values within one aggregate and one window shape; nulls, grouping and taking summaries out are hardly combined.',
     ['extension/src/stats_agg.rs', 'crates/stats-agg/src/stats1d.rs', 'crates/stats-agg/src/stats2d.rs'],
     [('transitions', 'stats1d_trans_inner, stats2d_trans_inner and the inverse ones'), ('combination', 'stats1d_combine_inner, stats1d_summary_trans_inner'), ('accessors', 'stats1d_*, stats2d_*, arrow_stats*')],
     TRUST + EXT + REALS + 'Bounded: up to 3 values (4 thorough). The moving-aggregate form (two doubles per number) is decided for values from a small set only. The sample statistics of one value are outside the claim.', ['inputs', 'histories'])
prop('C07', 'A HyperLogLog depends only on the set of values, whatever its form',
     'Every register is the highest rank of the hashes that fall into it, and a sparse sketch counts the distinct 25-bit prefixes of the hashes, whatever the order, repetition, nulls, grouping into partial states, serialisation or rollup, and whether the sketch or its parts are in the sparse or the dense form; combining does not change the inputs. Few distinct values are counted exactly up to collisions; where few registers are in use the count is linear counting, where the raw estimate is above five times the size the count is that estimate. Sizes are rounded up to a power of two, sizes outside 16 to 262144 are refused, and so is combining different sizes or types. stderror is 1.04 / sqrt(size).',
     'every sequence of hashes up to the bounded length, every grouping of them, and every form',
     'The tests count ascending integers and compare merged estimates of random ones; hash bits at the border of the sparse encoding, and merging sparse with dense sketches, occur in none of them.',
     ['crates/hyperloglogplusplus/src/lib.rs', 'crates/hyperloglogplusplus/src/sparse.rs', 'crates/hyperloglogplusplus/src/dense.rs', 'crates/hyperloglogplusplus/src/registers.rs', 'extension/src/hyperloglog.rs'],
     [('sparse encoding', 'Encoded::from_hash, count, Storage::merge_buffers'), ('registers', 'Registers::set_max, merge'), ('aggregate', 'hyperloglog_trans_inner, hyperloglog_combine_inner, hyperloglog_union_inner')],
     TRUST + EXT + 'A value stands for its own hash (the hash functions are those of PostgreSQL). Bounded: one or two hashes of any 64 bits, up to 4 (5 thorough) with chosen borders; 16 to 128 registers. Outside: the bias tables, and at what number of values the sparse form is left.', ['inputs', 'histories'])
prop('C08', 'Compressed integer sequences come back exactly as they went in',
     'The integer encodings used for stored sketches are lossless: zig-zag codes, delta codes (with differences that wrap around) and prefix-length bytes decode to exactly the numbers that were encoded, for every 64-bit value, alone or in sequence. Small magnitudes get small codes, and the number of bytes of a code is that of the shortest form it allows.',
     'every 64-bit value, every sequence up to the bounded length',
     'The tests round-trip random values; the extreme values, wrapping differences and boundaries of the nine lengths are hit by chance.',
     ['crates/encodings/src/lib.rs'],
     [('zig-zag, delta and prefix bytes', 'zigzag, delta, prefix_varint')],
     TRUST + 'Bounded: sequences of up to 2 numbers through all encodings, 3 in delta form; single numbers without bound.')
prop('C09', 'A UddSketch knows how many values fell where, in whatever order they came',
     'A UddSketch built from values in any order, in one group or several that are combined, sent as bytes or rolled up, holds for each of its buckets exactly the number of values that belong there, with buckets in ascending order and no more of them than allowed, merging neighbours only when it must. '
     'Count, sum and mean are those of the values. Every approximate percentile is within the reported error of the value of that rank, and the rank of a value is the share of smaller values (half of those too near to tell). The function and arrow forms agree. A sketch is stored and read back unchanged.',
     'every sequence of bucket keys up to the bounded length and size, every grouping',
     'The tests use long ascending series and compare a few percentiles; negative values, zero, merging sketches of different coarseness and full sketches are rare there.',
     ['crates/udd-sketch/src/lib.rs', 'extension/src/uddsketch.rs'],
     [('buckets', 'SketchHashMap::entry_upsert, compact'), ('merging', 'UDDSketch::merge_sketch, merge_items'), ('estimates', 'estimate_quantile, estimate_quantile_at_value'), ('storage', 'UddSketch::from, compress_buckets')],
     TRUST + EXT + 'Bounded: up to 3 values, keys of 3 bits of either sign. The key of a value is computed with a logarithm, which is only exercised for fixed values. Sketches of different parameters, infinite values and NaN are outside the claim.', ['inputs', 'histories'])
prop('C10', 'A t-digest counts every value once and its estimates stay in bounds',
     'A t-digest built from any values, in batches, in partial states that are combined or sent as bytes, by merging builders or by rollup, has the exact count, sum, mean, minimum and maximum of the values, at most the allowed number of centroids in ascending order, whose weights add up to the count and whose means lie between minimum and maximum; within one batch a centroid stands for a run of neighbouring values, no larger than the scale function allows. '
     'Percentiles lie between minimum and maximum and never decrease, the extreme percentiles are the extremes, ranks lie between 0 and 1 and never decrease, and the rank of a percentile is that percentile again. Digests are stored and read back unchanged, and all forms of access agree.',
     'every sequence of real values up to the bounded length, every grouping; every percentile and value for a family of digests',
     'The tests feed long uniform series and allow an error of percents; sizes of partial states, empty digests, equal values, ranks at the extremes and merging builders are not covered.',
     ['crates/t-digest/src/lib.rs', 'crates/t-digest-lib/src/lib.rs', 'extension/src/tdigest.rs'],
     [('building and merging', 'TDigest::merge_sorted, merge_digests, Builder::merge'), ('estimates', 'estimate_quantile, estimate_quantile_at_value'), ('aggregate', 'tdigest_trans_inner, tdigest_combine_inner, tdigest_compound_trans_inner')],
     TRUST + EXT + REALS + 'Bounded: up to 4 values into digests of 2 or 3 centroids (6 thorough), batches of up to 12 (30 thorough); estimates on digests of up to 3 centroids at fixed means with any admissible weights up to 3.', ['inputs', 'histories'])
prop('C11', 'A count-min sketch never undercounts, and sketches add up',
     'The approximate count of a text is at least the number of times it was given, and at most the number of all texts given. Sketches of two groups, combined in either order or sent as bytes, are the sketch of all their texts; subtracting one again leaves the other. Nulls are not counted, and sketches of different sizes are not combined.',
     'every sequence of short texts up to the bounded length, every other text looked up',
     'The tests count a few words; which texts collide in which row, and merging, are not explored.',
     ['crates/count-min-sketch/src/lib.rs', 'extension/src/countminsketch.rs'],
     [('counting and estimating', 'CountMinSketch::add_value, estimate'), ('combining', 'CountMinSketch::combine')],
     TRUST + EXT + 'The real hash function is part of what is decided. Bounded: up to 2 texts (3 thorough) out of 32 (30 letters, the empty text and a longer one); sketches of up to 4 columns and 2 rows.', ['inputs', 'histories'])
prop('C27', 'Looking at an aggregate does not change it',
     'Computing the result of an aggregate leaves its state as it was: asked again it gives the same result, and more rows can be added afterwards with the result they would have given if nobody had looked, as when the aggregate is used in a window with ORDER BY. A result already handed out is not changed by rows added later. This holds for every aggregate of the extension and for their rollups.',
     'every sequence of rows up to the bounded length, looked at after any of the rows',
     'The tests finish every aggregate once and never use them in a running window. At the pinned commit tdigest, max_n, min_n and state_agg failed (repaired, see DESIGN.md).',
     ['extension/src/tdigest.rs', 'extension/src/nmost.rs', 'extension/src/nmost/max_int.rs', 'extension/src/nmost/min_float.rs', 'extension/src/state_aggregate.rs', 'extension/src/state_aggregate/rollup.rs', 'extension/src/uddsketch.rs', 'extension/src/candlestick.rs', 'extension/src/counter_agg.rs', 'extension/src/gauge_agg.rs', 'extension/src/time_weighted_average.rs', 'extension/src/heartbeat_agg.rs', 'extension/src/frequency.rs', 'extension/src/lttb.rs', 'extension/src/asap.rs', 'extension/src/time_vector.rs', 'extension/src/stats_agg.rs', 'extension/src/hyperloglog.rs', 'extension/src/countminsketch.rs'],
     [('final functions', '*_final, finally, From<&mut …TransType> for Max…/Min…')],
     TRUST + EXT + REALS + 'Bounded: 3 rows (4 thorough). Results are compared as stored bytes.', ['histories', 'inputs'])
prop('C21', 'A stored aggregate is read back as it was written, a damaged one is refused',
     'The bytes an aggregate is stored as are read back to the same value, wherever PostgreSQL puts them: at any multiple of four, and with the one-byte header of short values in table rows. Bytes cut short anywhere, bytes that claim more elements than they hold, and unknown variants are refused with an error; nothing past the end of the bytes is ever read. '
     'That goes for every aggregate type, for time vectors, and for stored pipelines and lambda expressions.',
     'every content of every byte, every claimed length, every place to cut, within the bounded number of elements',
     'The tests store a few values and read them back whole and aligned; none of them reads a damaged one.',
     ['extension/src/type_builder.rs', 'crates/flat_serialize/flat_serialize/src/lib.rs', 'crates/flat_serialize/flat_serialize_macro/src/lib.rs', 'extension/src/datum_utils.rs'],
     [('reading', 'from_polymorphic_datum, try_ref'), ('writing', 'to_pg_bytes, fill_slice')],
     TRUST + EXT + 'Bounded: lists of up to 2 elements. Decompression and external storage are PostgreSQL\'s. What the contents mean (an index beyond a list) is outside the claim.', ['inputs', 'faults'])
