import json
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
S = "source/fern/"; A = S + "algorithm/"; EL = A + "algebra/elementary/"; CO = A + "core/"
p("P01", "Integer arithmetic is exact or marked no-data",
  "For every pair of integral element types, adding, subtracting, multiplying and dividing two elements (with the out-of-range and out-of-domain policies that ship with the operation) leaves in the result either the mathematically exact value (the truncated quotient for division) in the result type, or a no-data mark. An element is marked exactly when the exact value does not fit the result type, or the divisor is zero; an element outside the domain is not written. The claim covers argument values that the result type can hold; no operation has undefined behaviour.",
  ["inputs"], "all 8-, 16-, 32- and 64-bit signed and unsigned argument types, all argument values",
  "the tests sample a few boundary values of a few type pairs; overflow detection must be right for all 2^128 pairs of values of 64 pairs of types",
  [EL + "detail/%s.h" % o for o in ("add", "subtract", "multiply", "divide")] + [S + "core/math.h", CO + "detail/result_value.h"],
  [("out-of-range policies within_range", EL + "detail/add.h, subtract.h, multiply.h, divide.h"), ("result type deduction", CO + "result_type.h")])
p("P02", "Floating point and mixed arithmetic is rounded correctly or marked no-data",
  "For every pair of element types of which at least one is a floating point type, adding, subtracting, multiplying and dividing two elements leaves the correctly rounded IEEE 754 result of the arguments converted to the result type. The element is marked no-data exactly when that result is not finite, or, for division, when the divisor is zero, in which case the result is not written.",
  ["inputs"], "all pairs of a floating point type and an arithmetic type, all argument values including infinities, NaN, subnormals and signed zeros",
  "the tests sample a handful of ordinary values; rounding and overflow corner cases are a vanishing part of the 2^128 argument pairs",
  [EL + "detail/%s.h" % o for o in ("add", "subtract", "multiply", "divide")] + [CO + "detail/result_value.h"],
  [("out-of-range policies for floating point results", EL + "detail/add.h, subtract.h, multiply.h, divide.h")])
p("P03", "Mathematical functions are the math library's inside the domain, marked outside",
  "For a floating point element, square root, logarithms, rounding functions, absolute value, trigonometric functions, gamma, factorial and power give exactly the value of the corresponding function of the math library. The element is marked no-data, and its result not written, when the argument is outside the operation's documented domain (negative for square root and logarithms, not finite for sine, cosine and tangent, an odd multiple of pi/2 for tangent, outside [-1, 1] for arc sine and arc cosine, negative integers for gamma, anything but the non-negative whole numbers for factorial, a negative base with a fractional exponent or zero with a negative one for power), and it is marked when the value of gamma, factorial or power is not finite. No other element is marked, and no operation has undefined behaviour.",
  ["inputs"], "float and double, all argument values including infinities, NaN, subnormals and signed zeros",
  "the tests sample a handful of ordinary values; the domain and range decisions must be right for all 2^64 (power: 2^128) arguments",
  [EL + x for x in ("sqrt.h", "log.h", "log2.h", "log10.h", "round.h", "ceil.h", "floor.h", "trunc.h", "absolute.h", "tgamma.h", "factorial.h", "pow.h")] + [A + "trigonometry/" + x + ".h" for x in ("sin", "cos", "tan", "asin", "acos", "atan")],
  [("domain and range policies", EL + "*.h, " + A + "trigonometry/*.h")])
p("P04", "Comparisons and pairwise minimum and maximum agree with C++ on every pair",
  "For every pair of element types, less, less_equal, greater and greater_equal give exactly the C++ comparison of the two elements after the usual arithmetic conversions, and equal does so for two elements of one type. binary_max and binary_min give one of their two arguments, such that no argument is larger (smaller) than it. No element is marked.",
  ["inputs"], "all pairs of the 8-, 16-, 32- and 64-bit integral types, float and double, all values",
  "the tests compare a few small numbers; mixed-sign, mixed-width and NaN comparisons are where comparison code goes wrong",
  [A + "algebra/elementary/less.h", EL + "less_equal.h", EL + "greater.h", EL + "greater_equal.h", EL + "equal.h", A + "statistic/binary_max.h", A + "statistic/binary_min.h"],
  [("comparison algorithms", EL + "*.h"), ("binary_max and binary_min", A + "statistic/*.h")])
p("P05", "Boolean operations follow their truth tables for every element type",
  "and_, or_, xor_, nor, xnor and not_ give exactly their truth table's value for every pair of element types, an element being true if and only if it differs from zero, and never mark an element. defined gives 1 for a valid element and 0 for a no-data one.",
  ["inputs"], "all pairs of bool, the integral types, float and double, and several result types, all values including NaN and signed zeros",
  "the tests use 0 and 1 of one or two types; a truth value derived from bits, signs or a narrowing conversion passes them",
  [A + "algebra/boole/" + x for x in ("and.h", "or.h", "xor.h", "nor.h", "xnor.h", "not.h", "defined.h")],
  [("boolean algorithms", A + "algebra/boole/*.h")])
p("P06", "Absolute value and factorial of integers are exact or marked no-data",
  "For every integral element type the absolute value and the factorial of an element are exact in the result, and the element is marked no-data exactly when the exact value does not fit the element type or, for factorial, when the element is negative, in which case nothing is written. No operation has undefined behaviour.",
  ["inputs"], "all 8-, 16-, 32- and 64-bit signed and unsigned types, all values",
  "the smallest integer, and the boundary of overflow of each type, are a handful of values out of 2^64 that must all be decided right",
  [EL + "absolute.h", EL + "factorial.h"], [("absolute and factorial algorithms and policies", EL + "absolute.h, factorial.h")])
p("P07", "Casting elements keeps the value or applies the C++ conversion",
  "cast with its out-of-range policy, which accepts bool to any type, integral types to integral types of the same signedness that are at least as wide, and identical floating point types, keeps the value of every element and marks none. cast without a policy gives the C++ conversion of the element for every pair of element types, for every value the conversion is defined for.",
  ["inputs"], "all accepted pairs (checked cast) and all 100 pairs (unchecked cast) of element types, all values",
  "the tests cast a few small values; sign extension, narrowing and rounding mistakes only show for particular values",
  [CO + "cast.h"], [("cast algorithm and out-of-range policy", CO + "cast.h")])
p("P10", "Unary element-wise operations treat every element on its own",
  "A unary element-wise operation on 1-d or 2-d data visits every element exactly once: an input element that is no-data or outside the domain is marked no-data in the output and its result is not written, and any other element gets the algorithm's value of its own input element and is marked if and only if that value is out of range. Nothing else is written or marked. This holds for sequential, parallel and run-time selected execution, for any number of blocks the data is divided in and any order the blocks are processed in; all submitted work has finished when the operation returns.",
  ["inputs", "schedules", "configurations"], "all sizes, element values, no-data and range policies, numbers of threads and blocks, and schedules",
  "tests run a few sizes on one machine; the claim is about every size, every division in blocks and every interleaving",
  [CO + "unary_local_operation.h", CO + "index_ranges.h"],
  [("element loops and task submission", CO + "unary_local_operation.h"), ("all element-wise unary algorithms", EL + "*.h, " + A + "trigonometry/*.h")])
SCHED = ["inputs", "schedules", "configurations"]
EXEC = " This holds for sequential, parallel and run-time selected execution, for any number of blocks the data is divided in and any order the blocks are processed in; all submitted work has finished when the operation returns."
SIZES = "all sizes, element values, no-data policies, numbers of threads and blocks, and schedules"
WHY = "tests run a few sizes on one machine; the claim is about every size, every division in blocks and every interleaving"
p("P11", "Binary element-wise operations combine each pair of elements on its own",
  "A binary element-wise operation on any combination of a number and a number, or of 0-d, 1-d and 2-d data, visits every element of the result exactly once: an element of which either argument (at that position, or the single argument) is no-data, or which is outside the domain, is marked no-data and its result is not written; any other element gets the algorithm's value of exactly its own two argument elements, in order, and is marked if and only if that value is out of range. Nothing else is written or marked." + EXEC,
  SCHED, SIZES + ", all domain and range policies, all combinations of dimensions", WHY,
  [CO + "binary_local_operation.h", CO + "index_ranges.h"], [("element loops and task submission", CO + "binary_local_operation.h")])
p("P12", "Filling and generating operations treat every element of the result on its own",
  "fill writes the value to every element of a 0-d, 1-d or 2-d result, or marks every element when the value is no-data. A nullary element-wise operation applies the algorithm to every element once, and a disaggregating operation computes every element from the one input value; elements that are no-data or outside the domain are marked and not written, and elements whose value is out of range are marked. Nothing else is written or marked." + EXEC,
  SCHED, SIZES, WHY,
  [CO + "nullary_local_operation.h", CO + "unary_disaggregate_operation.h", CO + "fill.h", CO + "detail/fill.h", CO + "index_ranges.h"],
  [("element loops and task submission", CO + "nullary_local_operation.h, unary_disaggregate_operation.h, detail/fill.h")])
p("P13", "Dividing data in blocks covers every element exactly once",
  "For any positive number of threads, index_ranges divides a dimension of any size (and, for 2-d data, the rows of data of any width) in blocks such that every position is in exactly one block: the first block starts at zero, every next block starts where the previous one ends, and the last block ends at the size. Blocks of 2-d data span all columns. No block is empty, empty data has no blocks, and no index calculation overflows.",
  ["inputs", "configurations"], "all sizes and all positive numbers of threads (64-bit)",
  "tests try a few sizes and thread counts; losing or repeating an element takes a particular remainder",
  [CO + "index_ranges.cc", CO + "index_range.cc", CO + "index_ranges.h"], [("block division", CO + "index_ranges.cc")])
p("P14", "Cover takes the first valid element, in order of the arguments",
  "After cover, every element of the result holds the first argument's element if that is valid, otherwise the second argument's element (at that position, or the single argument) if that is valid; otherwise the element is marked no-data and not written. Nothing else is written or marked." + EXEC,
  SCHED, SIZES, WHY, [CO + "cover.h", CO + "detail/cover.h", CO + "index_ranges.h"], [("element loops and task submission", CO + "detail/cover.h")])
p("P15", "Clamp limits every element to its own bounds",
  "After clamp, given valid bounds of which no lower bound exceeds its upper bound, every valid element holds the lower bound (at that position, or the single one) if it is less than that, the upper bound if it is larger than that, and its own value otherwise; every no-data element is marked and not written. Nothing else is written or marked." + EXEC,
  SCHED, SIZES + ", array or single lower and upper bounds", WHY, [CO + "clamp.h", CO + "detail/clamp.h", CO + "index_ranges.h"], [("element loops and task submission", CO + "detail/clamp.h")])
p("P16", "Conditionals select each element by its own condition",
  "if_ without an else value: an element of which the condition and the true value are valid and the condition is true gets the true value; every other element is marked no-data and not written. if_ with an else value: an element of which the condition is valid gets the true value when the condition is true and the false value otherwise, provided that the selected value is valid; every other element is marked and not written. No-data of the value that is not selected does not matter. Condition and values are each an array or a single value. Nothing else is written or marked." + EXEC,
  SCHED, SIZES + ", all combinations of arrays and single values that are accepted", WHY, [CO + "if.h", CO + "detail/if.h", CO + "index_ranges.h"], [("element loops and task submission", CO + "detail/if.h")])
p("P17", "Merging, uniting and intersecting no-data marks exactly the sets asked for",
  "merge_no_data marks exactly the elements that are no-data in its argument, unite_no_data exactly those that are no-data in at least one of its two arguments, and intersect_no_data exactly those that are no-data in both. No other element is marked, no mark is removed, and no value changes." + EXEC,
  SCHED, SIZES, WHY,
  [CO + x + ".h" for x in ("merge_no_data", "unite_no_data", "intersect_no_data")] + [CO + "detail/" + x + ".h" for x in ("merge_no_data", "unite_no_data", "intersect_no_data")],
  [("element loops and task submission", CO + "detail/*_no_data.h")])
p("P18", "Policies detect, mark and discard exactly what they stand for",
  "Every no-data policy detects and marks what it stands for, for a single element and for elements of 1-d, 2-d and 3-d data: DetectNoDataByValue finds exactly the elements whose mask element holds the given no-data value, or the mask's own when none is given; MarkNoDataByValue writes that value to exactly the mask element asked for; DetectNoData and MarkNoData do so for the special no-data value of the element type (smallest of signed, largest of unsigned integers); skipping finds nothing, AllNoData everything, and not marking changes nothing; CollectNoDataIndices collects every marked index, in order. Copies of a policy decide the same, and InputNoDataPolicies keeps the policies in order. Discarding domain and range policies accept everything.",
  ["inputs"], "bool, integral and floating point masks, all values, all positions of 0-d to 3-d data",
  "tests use one or two values per policy; a policy that misses one value, or marks another element, passes them",
  ["source/fern/algorithm/policy/" + x for x in ("detect_no_data_by_value.h", "mark_no_data_by_value.h", "detect_no_data.h", "mark_no_data.h", "skip_no_data.h", "dont_mark_no_data.h", "all_no_data.h", "collect_no_data_indices.h", "input_no_data_policies.h", "discard_domain_errors.h", "discard_range_errors.h")],
  [("policies", "source/fern/algorithm/policy/*.h")])
p("P19", "Compress and copy put every selected element in its place, and nothing else",
  "compress puts the valid elements of 1-d or 2-d data, in order and without gaps, at the front of the 1-d result, and count is their number. copy puts each element of the given range of the 1-d source at its place in the destination, counted from the given position; a no-data source element marks its place in the destination, and its value is not written; elements of the destination outside that range are neither written nor marked. An empty range copies nothing. The source is not changed." + EXEC,
  SCHED, SIZES + ", ranges and positions", "the parallel algorithms go through per-block results that are moved afterwards: losing, repeating or reordering elements takes particular block bounds and no-data patterns",
  [CO + "compress.h", CO + "detail/compress.h", CO + "copy.h", CO + "detail/copy.h", CO + "index_ranges.h"],
  [("element loops and task submission", CO + "detail/compress.h"), ("copying of ranges", CO + "detail/copy.h")])
p("P20", "Offset moves every element by exactly the offset",
  "After offset, for 1-d and 2-d data and any offset, positive, zero or negative, smaller or larger than the data: a place whose source element (the place minus the offset) lies in the data holds that element if it is valid, and is marked and not written if it is no-data. A place without a source element is marked and not written, or, if a fill value is given, holds that value and is not marked. Nothing else is written or marked." + EXEC,
  SCHED, SIZES + ", all offsets", "losing or mixing up an element takes a particular combination of the signs and sizes of the offsets, the shape and the block bounds",
  [CO + "offset.h", CO + "detail/offset.h", CO + "index_ranges.h"], [("element loops and task submission", CO + "detail/offset.h")])
p("P21", "Aggregating data gives the aggregate of exactly its valid elements",
  "An aggregate operation (unary_aggregate_operation with any accumulator; statistic::sum, mean, unary_min, unary_max) over 1-d and 2-d data gives every valid element, and no no-data element, exactly once and in order to an accumulator per block, merges the accumulators of the blocks that have valid elements in block order, and writes the value of the merged accumulator to the result. The result is marked and not written exactly when there is no valid element, or when, for accumulators that can go out of range, the range policy reports that adding an element or merging a block went out of range." + EXEC,
  SCHED, SIZES + ", all accumulators", "skipping, repeating or misplacing one element, forgetting to report one range error, or merging a block without valid elements takes particular positions of the no-data elements, values and block bounds",
  [CO + "unary_aggregate_operation.h", CO + "index_ranges.h", A + "statistic/sum.h", A + "statistic/mean.h"], [("operation_1d/2d, Adder and the merging of blocks", CO + "unary_aggregate_operation.h")])
p("P22", "Accumulators hold the statistic of the values they were given",
  "Constructed with or assigned a value, an accumulator holds the statistic of that one value; given another value, or merged with another accumulator (operator|= and operator|), it holds the statistic of the values of both: sum and count add up in the type of the result (integers wrap around), mean is the sum divided by the count, min and max are the extremes, range is max minus min, median is the middle value or the mean of the two middle values, mode is a most frequent value, variance and standard deviation are those of the population. With a range policy, adding and merging report out of range exactly when the sum or count does not fit in its type. Merging leaves the other accumulator as it is.",
  ["inputs", "histories"], "all states, values and type combinations", "a wrong merge only shows for particular combinations of states, and type conversions only lose values at the extremes of types",
  [A + "accumulator/" + x + ".h" for x in ("sum", "count", "mean", "min", "max", "range", "median", "mode", "variance", "standard_deviation")], [("sum and its range check", A + "accumulator/sum.h"), ("merging of frequencies", A + "accumulator/detail/frequency_table.h")])
p("P23", "Decompress puts every value back in its place",
  "decompress goes through the places of the 1-d or 2-d result in order: a place that is no-data according to the input no-data policy is marked and not written, and every other place holds the next value of the 1-d source and is not marked. So decompressing what compress made of data, with the no-data policy of that data, gives the valid elements of that data in their places. The source is not changed, and nothing else is written or marked." + EXEC,
  SCHED, SIZES, "an index that is one off, or that is not advanced or advanced once too often, takes a particular pattern of no-data elements to be seen",
  [CO + "decompress.h", CO + "detail/decompress.h"], [("element loops", CO + "detail/decompress.h")])
p("P24", "Gradients are the differences with valid neighbours over their distance",
  "After gradient_x (gradient_y) of a raster of at least two columns (rows), every valid element holds the difference of its next and its previous neighbour in the direction of the columns (rows), divided by twice the cell size in that direction; where one of these neighbours is no-data or outside the raster, the difference of the other one and the element itself (the next minus the previous of the two), divided by the cell size; and 0 where both are. Every no-data element is marked and not written. Nothing else is written or marked." + EXEC,
  SCHED, SIZES, "mixing up neighbours, signs or distances takes a particular pattern of no-data neighbours near particular borders of the raster and of the blocks it is divided in",
  [A + "algebra/vector/gradient.h", A + "algebra/vector/detail/gradient.h", CO + "index_ranges.h"], [("element loops and task submission", A + "algebra/vector/detail/gradient.h")])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
