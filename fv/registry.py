"""Which drivers decide which property (ID -> verification units), and what surrounds the proofs."""
def U(driver, mode="uf", **k): return dict(driver=driver, mode=mode, **k)
# the run-time selected policies go through the code of the compile-time selected ones: the latter on their own in the thorough tier
def LOOPS(driver, **k): return [U(driver, checks=r"(?!.*_static$).*", **k), U(driver, checks=r".*_static", tier="thorough", **k)]
BLOCKS = U("index_ranges.cc", "uf")     # the contract of index_ranges() that the proofs of parallel loops rely on
OPS = ("add", "subtract", "multiply", "divide")
A = "source/fern/algorithm/"; EL = A + "algebra/elementary/"; CO = A + "core/"
def B(driver, checks, seconds=15, **k): return dict(driver=driver, mode="bounded", checks=checks, seconds=seconds, **k)     # generated inputs: never counted as proved
PROPS = {
 "P01": dict(level="proof", units=[U("arith_int.cc", "fp", defines=("OP=" + o,)) for o in OPS], cost={},
             functions=[A + "algebra/elementary/detail/%s.h: all integral within_range / within_domain / operator() specialisations" % o for o in OPS] +
                       ["source/fern/core/math.h: wrapping_*", A + "core/detail/result_value.h", A + "core/binary_local_operation.h (0-d x 0-d)"],
             note="proof for all values of all 64 pairs of integral element types"),
 "P02": dict(level="proof", units=[U("arith_float.cc", "fp", defines=("OP=" + o,)) for o in OPS],
             functions=[A + "algebra/elementary/detail/%s.h: floating point and mixed within_range / within_domain / operator() specialisations" % o for o in OPS],
             note="proof for all values (IEEE 754, round to nearest) of all 36 pairs with a floating point type"),
 "P03": dict(level="proof", units=[U("math_unary.cc", "fp")],
             functions=[EL + x + ".h: algorithm, OutOfDomainPolicy, OutOfRangePolicy" for x in ("sqrt", "log", "log2", "log10", "round", "ceil", "floor", "trunc", "absolute", "tgamma", "factorial", "pow")] +
                       [A + "trigonometry/" + x + ".h: algorithm, OutOfDomainPolicy" for x in ("sin", "cos", "tan", "asin", "acos", "atan")],
             note="proof for all float and double values"),
 "P04": dict(level="proof", units=[U("compare.cc", "fp"), U("compare.cc", "fp", defines=("SAMETYPE=1",))],
             functions=[EL + x + ".h: algorithm" for x in ("less", "less_equal", "greater", "greater_equal", "equal")] + [A + "statistic/binary_max.h: Algorithm", A + "statistic/binary_min.h: Algorithm"],
             note="proof for all values of all 100 pairs of element types"),
 "P05": dict(level="proof", units=[U("boolean.cc", "fp")], functions=[A + "algebra/boole/" + x + ".h: algorithm" for x in ("and", "or", "xor", "nor", "xnor", "not", "defined")],
             note="proof for all values of all 121 pairs of element types"),
 "P06": dict(level="proof", units=[U("math_int.cc", "fp")], functions=[EL + "absolute.h: integral algorithm and range policy", EL + "factorial.h: integral algorithm and policies"],
             note="proof for all values of all eight integral types"),
 "P07": dict(level="proof", units=[U("cast.cc", "fp")], functions=[CO + "cast.h: algorithm and OutOfRangePolicy"],
             note="proof for all values of all accepted pairs of element types"),
 "P12": dict(level="proof", units=[BLOCKS] + LOOPS("nullary_local.cc") + LOOPS("disaggregate.cc") + LOOPS("fill.cc"),
             functions=[CO + "nullary_local_operation.h: all overloads", CO + "unary_disaggregate_operation.h: all overloads", CO + "fill.h, detail/fill.h"],
             note="proof for all sizes, element values, no-data policies, domain and range policies, numbers of blocks"),
 "P14": dict(level="proof", units=[BLOCKS] + LOOPS("cover.cc"), functions=[CO + "cover.h, detail/cover.h: all overloads"],
             note="proof for all sizes, element values, no-data policies, numbers of blocks"),
 "P15": dict(level="proof", units=[BLOCKS] + LOOPS("clamp.cc"), functions=[CO + "clamp.h, detail/clamp.h: all overloads"],
             note="proof for all sizes, element values, no-data policies, numbers of blocks"),
 "P16": dict(level="proof", units=[BLOCKS] + LOOPS("if.cc"), functions=[CO + "if.h, detail/if.h: all overloads"],
             note="proof for all sizes, element values, no-data policies, numbers of blocks"),
 "P17": dict(level="proof", units=[BLOCKS] + LOOPS("no_data_sets.cc"), functions=[CO + x + ".h, detail/" + x + ".h: all overloads" for x in ("merge_no_data", "unite_no_data", "intersect_no_data")],
             note="proof for all sizes, element values, no-data policies, numbers of blocks"),
 "P11": dict(level="proof", units=[BLOCKS] + LOOPS("binary_local.cc"), functions=[CO + "binary_local_operation.h: all overloads"],
             note="proof for all sizes, element values, no-data policies, domain and range policies, numbers of blocks, and all combinations of 0-d, 1-d and 2-d arguments"),
 "P10": dict(level="proof", units=[BLOCKS] + LOOPS("unary_local.cc"),
             functions=[A + "core/unary_local_operation.h: all overloads"],
             note="proof for all sizes, element values, no-data policies, domain and range policies, numbers of blocks"),
 "P13": dict(level="proof", units=[BLOCKS], functions=[CO + "index_ranges.cc: index_ranges (1-d and 2-d)", CO + "index_range.cc: IndexRange", CO + "index_ranges.h: IndexRanges"],
             note="proof for all sizes and numbers of threads; lemmas (ghost code) from adjacent blocks to exactly one owner of each position"),
 "P18": dict(level="proof", units=[U("no_data_policies.cc", "fp")], functions=[A + "policy/" + x + ".h" for x in ("detect_no_data_by_value", "mark_no_data_by_value", "skip_no_data", "dont_mark_no_data", "input_no_data_policies", "discard_domain_errors", "discard_range_errors")],
             note="proof for all values of all element types and all positions"),
 "P19": dict(level="proof", units=[BLOCKS, U("rank.cc")] + LOOPS("copy.cc") + [U("compress.cc", checks="compress_1d_(sequential|parallel)|compress_2d_sequential"),
                    U("compress.cc", checks="compress_1d_(sequential|parallel)_static|compress_2d_sequential_static", tier="thorough"), B("compress.cc", "compress_2d_parallel")], cost={"compress_1d_parallel": 9},
             functions=[CO + "copy.h, detail/copy.h: all overloads", CO + "compress.h, detail/compress.h: 1-d (sequential and parallel), 2-d (sequential)"],
             note="proof for all sizes, element values, no-data patterns, ranges, positions and numbers of blocks; parallel compress of 2-d data is checked on generated inputs only (bounded, not proved)"),
 "P20": dict(level="proof", units=[BLOCKS] + LOOPS("offset.cc"), functions=[CO + "offset.h, detail/offset.h: all overloads"],
             note="proof for all sizes, offsets, element values, no-data patterns, numbers of blocks"),
 "P21": dict(level="proof", units=[BLOCKS, U("unary_aggregate.cc", checks="lemma_.*|aggregate_1d(_safe)?_(sequential|parallel)|aggregate_2d_safe_sequential"),
                    U("unary_aggregate.cc", checks="aggregate_1d(_safe)?_(sequential|parallel)_static|aggregate_2d_safe_(sequential|parallel)_static", tier="thorough"),
                    B("unary_aggregate.cc", "aggregate_2d_(sequential|parallel)|aggregate_2d_safe_parallel", 10)], cost={"aggregate_2d_safe_sequential": 9},
             functions=[CO + "unary_aggregate_operation.h: 1-d (sequential and parallel, all overloads, with and without range check), 2-d (sequential, without range check; parallel in the thorough tier)"],
             note="proof for all sizes, element values, no-data patterns, accumulators, numbers of blocks; 2-d data with a range check, and 2-d data in parallel (quick tier), are checked on generated inputs only (bounded, not proved)"),
 "P22": dict(level="proof", units=[U("accumulators.cc", "fp"), B("accumulators_data.cc", ".*", 2)],
             functions=[A + "accumulator/" + x + ".h: all members and operator|" for x in ("sum", "count", "mean", "min", "max", "range")],
             note="proof for all states and values of 17 pairs of value and result types; median, mode, variance and standard deviation (standard containers), and the range of floating points, are checked on generated inputs only (bounded, not proved)"),
 "P23": dict(level="proof", units=[U("rank.cc", checks="lemma_rank.*")] + LOOPS("decompress.cc"), functions=[CO + "decompress.h, detail/decompress.h: all overloads"],
             note="proof for all sizes, element values, no-data patterns"),
 "P24": dict(level="proof", units=[BLOCKS] + LOOPS("gradient.cc"), cost={"gradient_y_parallel": 9, "gradient_y_sequential": 8},
             functions=[A + "algebra/vector/gradient.h, detail/gradient.h: all overloads"],
             note="proof for all sizes, element values, cell sizes, no-data patterns, numbers of blocks (floating point operations uninterpreted)"),
}
