#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


prop("C01", "Struct and Dataset column containers behave as an ordered map",
     "After any sequence of column operations (add, replace, delete, pop, rename, map, move, swap, prefix/suffix, string replace, filter, copy, label/footer tagging, locking) a Struct or Dataset holds exactly the names, order and values that the same sequence produces on an ordered map, and every Dataset column has the Dataset's row count. An operation that raises leaves the container as it was.",
     ["histories"], "all operation sequences up to the depth bound over a small alphabet of columns, names and operations, from several start states",
     "tests run a handful of fixed operation sequences; name/ordering/row-count bookkeeping is spread over several parallel fields and only mis-set by particular sequences",
     ["riptable/rt_struct.py", "riptable/rt_itemcontainer.py", "riptable/rt_dataset.py"],
     [("ItemContainer ordered item store", "rt_itemcontainer.py"), ("Struct.__setattr__/_superadditem/_deleteitem, col_* methods", "rt_struct.py"), ("Dataset._check_addtype/_check_add_dimensions", "rt_dataset.py")],
     ["keys()", "items()", "shape", "label_get_names()", "footer_get_dict()"],
     [("_all_items", "ordered name to value store", "rt_struct.py"), ("_nrows/_ncols", "cached shape", "rt_struct.py, rt_dataset.py")])

prop("C02", "Row and column selection and assignment address exactly the chosen cells",
     "Reading a Dataset through any supported row/column indexer (int, negative int, slice, fancy index, boolean mask, label, column name, list or mask of columns, filter, head, tail, trim, keep, iteration by row) returns exactly the addressed rows and columns in the addressed order, for every column type, with labels and column names preserved. Assigning through such an indexer changes exactly the addressed cells and nothing else.",
     ["inputs", "configurations"], "all row indexers and column indexers over Datasets of up to 4 rows covering every column type",
     "tests use a few index shapes on a few column types; the product of row indexer x column indexer x column type x size (including 0 and 1 rows) is not covered",
     ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_fastarray.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py"],
     [("Struct._mask_get_item/_extract_indexing, Dataset.__getitem__/__setitem__", "rt_struct.py, rt_dataset.py"), ("FastArray.__getitem__/__setitem__", "rt_fastarray.py")],
     ["Dataset indexing results"])

prop("C03", "Elementwise operators match NumPy on valid data and propagate missing values",
     "For every supported dtype pair, arithmetic, comparison, bitwise, logical and unary operations (array or scalar operands in either position, in-place, masked and reduced forms), where() and mask combination on FastArrays give NumPy's elementwise result as a FastArray. A NaN gives a NaN result and never compares equal, less or greater; the isnan/isnotnan/isfinite family reports NaN and each dtype's integer sentinel, and exactly those, as missing, and a sentinel becomes NaN when an integer array meets a floating-point operand.",
     ["inputs"], "all operand pairs from a per-dtype alphabet of boundary, ordinary and missing values, all dtype pairs, array/scalar operand positions, lengths 0..3",
     "tests sample a few values per dtype; dtype-pair dispatch and sentinel handling depends on exact dtype, operand order and value",
     ["riptable/rt_fastarray.py", "riptable/rt_numpy.py", "riptable/rt_ledger.py"],
     [("FastArray.__array_ufunc__ dispatch", "rt_fastarray.py"), ("where, mask_*, isnan family", "rt_numpy.py")],
     ["operator results"])

prop("C04", "Array and Dataset reductions skip exactly the missing and filtered elements",
     "sum, mean, var, std, min, max, median, count, argmin/argmax and percentiles of a FastArray equal the mathematical reduction of its elements; the nan-variants equal the same reduction over only the non-missing elements, and a filter restricts both to the selected elements. Reducing a Dataset by column, by row or overall gives the reduction of each corresponding array.",
     ["inputs", "configurations"], "all arrays up to length 4 over a per-dtype alphabet including missing values, all reductions, all filters",
     "tests use few arrays and almost no combination of filter, missing values, dtype and length",
     ["riptable/rt_fastarray.py", "riptable/rt_numpy.py", "riptable/rt_dataset.py"],
     [("FastArray reductions and filter wrappers", "rt_fastarray.py"), ("Dataset.reduce", "rt_dataset.py")],
     ["reduction results"])

prop("C05", "Conversion and filling never lose, invent or misplace missing values",
     "Converting an array between dtypes keeps every representable value and maps missing to missing (any numeric type, any memory layout); fillna/replacena/fill_forward/fill_backward/putmask/nan_to_num and shifting change only missing (or addressed) positions and fill them with the documented value, honouring fill limits and defaults. Element positions and array length never change.",
     ["inputs", "configurations"], "all arrays up to length 5 over {values, missing} per dtype, all fill methods, limits and fill values, all dtype pairs",
     "tests exercise single examples per method; limits, leading/trailing runs and sentinel dtypes interact",
     ["riptable/rt_fastarray.py", "riptable/rt_fastarraynumba.py", "riptable/rt_numpy.py", "riptable/rt_dataset.py", "riptable/rt_enum.py"],
     [("FastArray.astype/fillna/shift", "rt_fastarray.py"), ("fill_forward/fill_backward kernels", "rt_fastarraynumba.py"), ("INVALID_DICT", "rt_enum.py")],
     ["result arrays"])

prop("C06", "Membership, uniqueness and search functions agree with set semantics",
     "ismember/isin report exactly the elements that occur in the haystack together with a position at which they occur (first occurrence), for single and multi-column keys and for Categoricals; unique returns each distinct value exactly once in the documented order with correct first-index, inverse and counts. duplicated, nunique, searchsorted, issorted and bool_to_fancy agree with the same definitions.",
     ["inputs"], "all pairs of arrays up to length 4 over 3 values for each key type and multi-key combination, plus index-dtype threshold sizes",
     "tests use isolated examples; the result depends on key type mix (bytes/unicode/int/float/categorical), multi-key alignment and on size thresholds",
     ["riptable/rt_numpy.py", "riptable/rt_fastarray.py", "riptable/rt_categorical.py", "riptable/rt_grouping.py", "riptable/rt_dataset.py"],
     [("ismember, unique, _ismember_align_multikey, _possibly_match_categoricals", "rt_numpy.py")],
     ["returned masks and indices"])

prop("C07", "Sorting is a stable permutation and sort views always reflect current data",
     "lexsort/sort and Dataset sort_copy/sort_inplace produce a stable, correctly ordered permutation applied identically to every column, for any key list and any ascending/descending combination; argsort gives a correctly ordered permutation (stable when asked for). After any history of sorting, viewing, column edits and row edits, a sorted view shows the current rows in the order the current keys imply (deleting or replacing a key column ends the view).",
     ["inputs", "histories"], "all small key columns and key orders and all ascending flags; all histories up to the depth bound of sort/edit/view operations",
     "the sort cache is validated only by specific edit-then-view histories which tests do not enumerate",
     ["riptable/rt_dataset.py", "riptable/rt_sort_cache.py", "riptable/rt_numpy.py", "riptable/rt_fastarray.py"],
     [("Dataset._sort_values", "rt_dataset.py"), ("SortCache", "rt_sort_cache.py"), ("lexsort", "rt_numpy.py")],
     ["sort_copy", "sort_inplace", "sort_view", "get_sorted_col_data"],
     [("SortCache._cache", "sort index by dataset id", "rt_sort_cache.py")])

prop("C08", "Groupings are exact partitions with consistent derived indices",
     "For any key columns and any filter, grouping assigns two rows the same bin exactly when their keys are equal and both pass the filter, puts filtered or invalid rows in the zero bin, and lists each distinct key once in the documented order. All derived views (first/last/next/previous row of a group, rows per group, group row lists, counts, regrouping, shrinking, combining or stacking groupings) describe that same partition, in whatever order they are requested.",
     ["inputs", "histories"], "all key arrays up to length 5 over 3 values plus missing, single and two keys, all filters, all request orders of derived views, plus bin-count dtype thresholds",
     "tests check selected attributes of a few groupings; lazily computed attributes and dtype thresholds depend on request order and group count",
     ["riptable/rt_grouping.py", "riptable/rt_numpy.py", "riptable/rt_groupbykeys.py"],
     [("Grouping lazy properties", "rt_grouping.py"), ("groupby/groupbyhash/groupbylex/combine2keys", "rt_numpy.py")],
     ["Grouping attributes"],
     [("Grouping._ikey,_iGroup,_iFirstGroup,_nCountGroup", "lazily built partition", "rt_grouping.py")])

prop("C09", "A Categorical always stands for the labels it was built from",
     "A Categorical built from any supported source (strings, bytes, numbers, codes plus categories, dict or enum mapping, multiple key columns, dates, pandas/arrow data, with any filter, ordering, base index or dtype) expands to the original label at every row and to the filtered/invalid label where filtered. Indexing, slicing, comparing, isin, mapping, shifting, copying, shrinking, converting to a string array and testing for missing values give what the same operation gives on the array of labels.",
     ["inputs", "configurations"], "all label arrays up to length 4 over 3 labels (including empty) for each construction route and option combination, then each read operation",
     "tests cover routes with one or two arrays each; route x option x operation x array content is not covered",
     ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
     [("Categorical.__new__, Categories, _categorical_compare_check", "rt_categorical.py"), ("Grouping", "rt_grouping.py")],
     ["expand_array", "__getitem__", "comparison results", "category_array"])

prop("C10", "Categorical edits change exactly the intended labels through any history",
     "After any sequence of edits (item assignment by label or index, category add/remove/replace, auto-add on/off, locking, invalid/filter settings, mapping edits) interleaved with reads and group operations, each row of a Categorical shows the label that the same edits give on an array of labels. Group results computed after an edit reflect the edited labels, not a stale grouping.",
     ["histories"], "all edit/read sequences up to the depth bound from several start Categoricals (string, base 0/1, filtered, mapping)",
     "caches (grouping, dirty flag, category dictionaries) are wrong only after particular edit sequences",
     ["riptable/rt_categorical.py", "riptable/rt_grouping.py"],
     [("Categories edits, Grouping.set_dirty/regroup", "rt_categorical.py, rt_grouping.py")],
     ["expand_array", "category_array", "count()", "sum()"],
     [("Grouping dirty flag", "grouping must be recomputed", "rt_grouping.py")])

prop("C11", "Group reductions equal the reduction of each group's rows",
     "For every reduction offered on GroupBy and Categorical (count, sum, mean, min, max, first, last, median, mode, quantile/percentile, var, std, their nan-variants, nth, agg with several functions, user-defined reductions), the value reported for a group equals that reduction over exactly the rows of that group which pass the filter, with the group keys labelled correctly and in the documented order. transform=True returns the same value aligned with the original rows, and every input column keeps its name and suitable type.",
     ["inputs", "configurations"], "all small key/value arrays per value dtype including missing values and empty groups, all filters, every reduction, sorted/unsorted, single/multi key, transform on/off",
     "autotests compare a few random arrays; empty groups, all-missing groups, filters and transform interact per function and dtype",
     ["riptable/rt_groupbyops.py", "riptable/rt_groupby.py", "riptable/rt_grouping.py", "riptable/rt_categorical.py", "riptable/rt_groupbykeys.py"],
     [("GroupByOps reductions, _possibly_transform, agg", "rt_groupbyops.py"), ("Grouping._calculate_all/_return_dataset/_finalize_dataset", "rt_grouping.py")],
     ["Dataset returned by the reduction"])

prop("C12", "Group-wise scans, windows and row selections respect group and row order",
     "cumsum, cumprod, cumcount, cummin/cummax, shift, diff, rolling_*, ema_*, findnth, fill_forward/fill_backward and user-defined nonreducing functions on a GroupBy or Categorical give, at each row, the function evaluated on that row's group in original row order, independently of how groups interleave. Rows outside the filter do not influence other rows.",
     ["inputs", "configurations"], "all interleavings of up to 5 rows over up to 3 groups with missing values and filters, all windows up to 3, every scan function",
     "results depend on the interleaving of groups and the position of missing values and filter gaps; tests use one or two interleavings",
     ["riptable/rt_groupbyops.py", "riptable/rt_groupby.py", "riptable/rt_grouping.py", "riptable/rt_groupbynumba.py", "riptable/rt_categorical.py"],
     [("GroupByOps rolling/cum/ema", "rt_groupbyops.py"), ("numba group kernels", "rt_groupbynumba.py"), ("Grouping.apply", "rt_grouping.py")],
     ["per-row results"])

prop("C13", "Joins return exactly the relational join",
     "merge, merge2 and merge_lookup return exactly the rows the relational left/right/inner/outer join of the two key columns defines (respecting keep, validate, require_match and column selection), with each output row's columns taken from one left row and one right row with equal keys, in the documented order. Unmatched sides are missing, key columns hold the key of the row, the indicator tells the truth, and column names follow the suffix rule.",
     ["inputs", "configurations"], "all pairs of key columns up to 3-4 rows over 3 key values (plus missing) for each key type, single/two keys, all how/keep/indicator/suffix/validate options",
     "tests enumerate examples; duplicate patterns on both sides x how x keep x key type is a large product",
     ["riptable/rt_merge.py", "riptable/rt_dataset.py"],
     [("merge_indices/_create_merge_fancy_indices/_build_left_fancyindex/_build_right_fancyindex", "rt_merge.py")],
     ["merged Dataset"])

prop("C14", "As-of joins pick exactly the nearest admissible row",
     "merge_asof matches each left row with the right row of the same by-group whose on value is the closest in the requested direction, subject to tolerance and exact-match rules, choosing the documented row among ties, and yields missing values when none qualifies. Left row order is preserved whether or not the inputs were sorted, and column naming, matched_on and column selection behave as documented.",
     ["inputs", "configurations"], "all sorted left/right on-columns up to 3-4 rows over 4 values, all by-group assignments, directions, tolerances, exact-match flags",
     "boundary cases (ties, duplicates, equality with tolerance, empty groups) multiply; tests cover examples",
     ["riptable/rt_merge_asof.py", "riptable/rt_merge.py"],
     [("_merge_asof_* kernels", "rt_merge_asof.py"), ("_AsOfMerge, merge_asof", "rt_merge.py")],
     ["merged Dataset"])

prop("C15", "Concatenation preserves every row and fills only the gaps",
     "hstack of arrays, Categoricals and date/time arrays, stacking of Datasets by row or by column, and concatenation of Structs contain each input's values in input order with missing values exactly where an input lacked the column. Labels, names, dtypes (lossless common type) and categories are reconciled without changing any label, time zone instant or value.",
     ["inputs", "configurations"], "all lists of up to 3 small inputs per type, all missing-column patterns, all dtype pairs, all category orders",
     "tests stack few combinations; category reconciliation, gaps and dtype promotion interact",
     ["riptable/rt_hstack.py", "riptable/rt_grouping.py", "riptable/rt_dataset.py", "riptable/rt_numpy.py", "riptable/rt_datetime.py"],
     [("_hstack_dataset/_hstack_categorical/_possibly_add_concat_gap", "rt_hstack.py"), ("hstack_groupings/merge_cats", "rt_grouping.py")],
     ["stacked object"])

prop("C16", "Saving and loading SDS returns the same object",
     "Loading what was saved with any combination of save options (compression, single file or directory, nested structures, band size, names) returns the same containers, names, order, labels, types, values, categories, time zones and metadata. Loading with include, folders, threads, filter, info or another library entry point returns exactly the corresponding part.",
     ["inputs", "configurations"], "all containers built from an alphabet of every supported item type with sizes 0..3 and nesting depth 2, all save and load option combinations",
     "tests round-trip selected types with selected options; type x nesting x option combinations are not covered",
     ["riptable/rt_sds.py", "riptable/rt_struct.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py", "riptable/rt_dataset.py"],
     [("save_sds/_write_to_sds/load_sds/_load_sds", "rt_sds.py"), ("_build_sds_meta_data/_load_from_sds_meta_data", "rt_struct.py, rt_categorical.py, rt_datetime.py")],
     ["loaded object"])

prop("C17", "SDS file histories: overwrite, append, stack and concat compose correctly",
     "After any history of saves, overwrites, section appends, nested saves, concatenations and flattening in a directory, loading (whole, stacked, by section, by include list or by row filter) yields exactly the data of the last writes, equal to stacking the separately loaded parts, with missing values for columns absent from a part. A refused or failed operation leaves previously saved data loadable and unchanged.",
     ["histories", "fault_sequences"], "all save/append/overwrite/concat/load histories up to the depth bound in a scratch directory, every stack of up to 3 files with every missing-column pattern, a write failure injected at each file write",
     "tests perform single saves and loads; state accumulated in files and directories by sequences and failures is not explored",
     ["riptable/rt_sds.py", "riptable/rt_struct.py", "riptable/rt_pdataset.py"],
     [("save_sds, sds_concat, sds_flatten, _stack_sds_files, _multistack_items, _convert_to_mask", "rt_sds.py")],
     ["load_sds results", "directory contents"])

prop("C18", "Calendar fields and time-zone conversion match the civil calendar",
     "For every date or nanosecond time, the reported year, month, day, day of week, day of year, hour ... nanosecond, leap year, weekend flag, DST flag, UTC offset, start of week/month and since-midnight/epoch values are those of the Gregorian calendar and the tz database in the displayed zone, for every supported zone and including moments around every DST transition. Converting between zones and to/from UTC, strings and other date types preserves the instant, and missing times stay missing.",
     ["inputs"], "every day of 1970-2039, every DST transition of that period in each supported zone with the moments around it, every sub-day field boundary",
     "tests check selected instants; correctness is per-instant and fails at table edges, leap days and transition seconds",
     ["riptable/rt_datetime.py", "riptable/rt_timezone.py"],
     [("Date/DateTimeCommon field properties", "rt_datetime.py"), ("TimeZone.fix_dst/to_utc/_mask_dst tables", "rt_timezone.py")],
     ["field properties", "strings"])

prop("C19", "Date and time arithmetic is type-correct, exact and keeps missing missing",
     "Adding, subtracting, comparing, scaling and flooring Date, DateSpan, DateTimeNano, TimeSpan and their scalars gives the exact instant, duration or truth value with the right result type for every allowed operand pair and raises for the nonsensical ones. A missing operand gives a missing result, a missing left operand compares False (and != True), and parsing a formatted value returns the value.",
     ["inputs"], "all operand type pairs, array/scalar positions and operators over an alphabet of boundary instants and missing values; all format/parse pairs",
     "operator tables have many type pairs, most of which tests touch at most once and rarely with missing values",
     ["riptable/rt_datetime.py"],
     [("_check_mathops/_funnel_mathops/_build_mathops_result", "rt_datetime.py"), ("datestring_to_nano/timestring_to_nano/strptime_to_nano", "rt_datetime.py")],
     ["operator results"])

prop("C20", "Cross-tabulations agree with their margins and with group reductions",
     "Every cell of an Accum2/AccumTable (and accum_ratio/accum_ratiop/accum_cols) equals the reduction over the rows with that row key and column key that pass the filter, row and column totals equal the reduction over the whole row or column, and the grand total over all included rows. Filtered or invalid keys never leak into other cells.",
     ["inputs", "configurations"], "all two-key assignments of up to 5 rows over 2x3 keys with filters and missing values, every supported reduction, show/hide filtered options",
     "tests check few tables; margins are computed by separate code paths per function and filter",
     ["riptable/rt_accum2.py", "riptable/rt_accumtable.py", "riptable/rt_grouping.py"],
     [("Accum2._calc_onepass/_calc_multipass/_add_totals/_calc_badslots", "rt_accum2.py"), ("AccumTable.gen, accum_ratio", "rt_accumtable.py")],
     ["Dataset returned by Accum2/AccumTable"])

prop("C21", "Binning puts every value in exactly the bin that contains it",
     "cut, qcut and quantile assign each valid value to the one bin whose documented interval contains it (closed-side rule, duplicate edges, labels, user edges, filter) and each missing, infinite or out-of-range value to the invalid bin. Labels and returned edges describe the bins actually used.",
     ["inputs", "configurations"], "all arrays up to length 4 over a small ordered alphabet with missing and infinite values, all edge lists/bin counts/closed-side/label options",
     "edge equality, duplicates and out-of-range values are the failure points and tests touch few",
     ["riptable/rt_bin.py", "riptable/rt_numpy.py", "riptable/rt_utils.py"],
     [("cut/qcut/quantile/_bins_to_cuts_new", "rt_bin.py")],
     ["returned Categorical and bins"])

prop("C22", "Vectorised string operations equal the per-element string operation",
     "upper, lower, strlen, reverse, removetrailing, contains, startswith, endswith, index, index_any_of, replace, substr, char, regex_match, regex_replace and extract give, for every element of a bytes or unicode FastArray or Categorical, the result of the corresponding Python string operation. Array length, element order and filtered/invalid entries are preserved.",
     ["inputs", "configurations"], "all strings up to length 3 over a 3-letter alphabet (with case, space and non-ASCII letters), all patterns up to length 2-3, all positions, bytes/unicode, array/Categorical, above and below the duplicate-elimination threshold",
     "kernels work on fixed-width padded buffers where end-of-string handling, overlaps and padding matter",
     ["riptable/rt_str.py"],
     [("FAString numba kernels", "rt_str.py"), ("CatString wrappers", "rt_str.py")],
     ["string results"])

prop("C23", "Interoperability conversions round-trip losslessly",
     "Converting arrays, Categoricals, dates and Datasets to pandas, Arrow, NumPy record arrays, row lists, dictionaries or pickles and back yields the same names, order, values, missing values, categories and time instants. Constructing from those foreign objects yields exactly their contents.",
     ["inputs", "configurations"], "all small arrays per type including missing values and empty arrays, every conversion pair and option",
     "tests convert sample arrays; missing-value encodings and options per dtype multiply",
     ["riptable/rt_dataset.py", "riptable/rt_fastarray.py", "riptable/rt_categorical.py", "riptable/rt_datetime.py", "riptable/Utils/pandas_utils.py", "riptable/rt_csv.py", "riptable/rt_utils.py"],
     [("to_arrow/from_arrow, to_pandas/from_pandas, as_recordarray, from_rows/from_tagged_rows", "rt_dataset.py, rt_fastarray.py, rt_categorical.py, rt_datetime.py")],
     ["converted objects"])

prop("C24", "Reshaping keeps every value under its own row and column keys",
     "melt, pivot, transpose, as_matrix/imatrix, add_matrix, one_hot_encode, drop_duplicates/duplicated, from_jagged rows, outliers, cat2keys, equals and Dataset-wide arithmetic/astype/apply keep each value associated with its own row key and column, neither dropping nor inventing values. Duplicate detection keeps exactly the first, last or no member of each set of equal rows.",
     ["inputs", "configurations"], "all Datasets of up to 4 rows over small key alphabets, all option combinations",
     "tests reshape single examples; order and duplicates patterns matter",
     ["riptable/rt_dataset.py", "riptable/rt_categorical.py", "riptable/rt_imatrix.py", "riptable/rt_numpy.py"],
     [("Dataset.melt/pivot/transpose/duplicated/drop_duplicates/imatrix_*", "rt_dataset.py"), ("cat2keys", "rt_numpy.py")],
     ["reshaped objects"])

prop("C25", "Read-only operations never modify their inputs and copies are independent",
     "Any operation not documented as in-place leaves every input array, Categorical and Dataset (values, names, labels, order, categories) unchanged, and a deep copy shares no mutable state with its source, while a shallow copy's container edits do not leak back. Displaying an object never changes it or the display options.",
     ["inputs", "histories"], "every public operation in the alphabet applied to every start object with before/after fingerprints; all edits applied to each copy kind",
     "aliasing shows only when a caller later edits or reuses an input, which tests rarely check",
     ["riptable/rt_dataset.py", "riptable/rt_struct.py", "riptable/rt_categorical.py", "riptable/rt_fastarray.py", "riptable/rt_grouping.py", "riptable/rt_merge.py", "riptable/rt_display.py"],
     [("copy/_copy/_as_itemcontainer", "rt_dataset.py, rt_struct.py, rt_categorical.py")],
     ["fingerprints of inputs"])

prop("C26", "Results do not depend on engine configuration, array size path or memory layout",
     "Turning threading, array recycling, or the fast-function mode on or off, presenting the same data as contiguous, strided, sliced or read-only arrays, and embedding the data in longer arrays that take the large-array code path do not change the result of any operation. Restoring a setting restores the default behaviour.",
     ["configurations", "inputs"], "all combinations of engine switches and memory layouts for an alphabet of operations and inputs, with sizes on both sides of the size thresholds",
     "tests run in the default configuration on contiguous arrays",
     ["riptable/rt_fastarray.py", "riptable/rt_numpy.py", "riptable/rt_grouping.py", "riptable/rt_ledger.py"],
     [("Threading/Recycle/Ledger switches, FastArray._FastFunctionsOn/Off", "rt_fastarray.py")],
     ["operation results"])

prop("C27", "Partitioned and nested Datasets stay consistent with their flat content",
     "A PDataset's partitions (names, row counts, slices, cut-offs, groupings, iteration) partition exactly the rows of the stacked data in order and loading/saving by partition loses nothing; a Multiset's flattening, indexing, cascaded operations and copies contain exactly the cells of its member Datasets under the right headers. Row edits and selections keep both views consistent.",
     ["inputs", "histories"], "all lists of up to 3 Datasets with 0..3 rows and all missing-column patterns; all Multiset nestings to depth 2 and operations",
     "tests use one or two partition layouts",
     ["riptable/rt_pdataset.py", "riptable/rt_pgroupby.py", "riptable/rt_multiset.py"],
     [("PDataset._init_from_list/pcutoffs/__getitem__", "rt_pdataset.py"), ("Multiset.flatten/__getitem__", "rt_multiset.py")],
     ["partitions", "flattened Dataset"])

prop("C28", "Array windows, scans, interpolation and row utilities equal their definitions",
     "rolling sum/mean/quantile, move_*, timewindow_*, ema_decay, cumsum/cumprod/cummin/cummax, diff, shift, differs, transitions, interp/interp_extrap, repeat/tile, between, clip, normalisation, bitcount, mbget, map and sample give at each position the value their definition gives for that position's window or neighbours. Missing values, filters and reset flags influence only the positions their definition says.",
     ["inputs", "configurations"], "all arrays up to length 5 over a small alphabet with missing values, all windows/periods/filters/resets",
     "tests check few arrays; window edges and missing values are the failure points",
     ["riptable/rt_fastarray.py", "riptable/rt_fastarraynumba.py", "riptable/rt_numpy.py", "riptable/rt_utils.py", "riptable/rt_mlutils.py"],
     [("FastArray.rolling_*/timewindow_*/shift/diff", "rt_fastarray.py"), ("ema_decay/cummin/cummax kernels", "rt_fastarraynumba.py"), ("interp, mbget", "rt_numpy.py, rt_utils.py")],
     ["result arrays"])

NOTE = ("Bounded exhaustive: every case of the finite spaces listed for {id} in DESIGN.md is executed on the real code in /repo (no sampling) and each step compared with an independent "
        "reference model. Nothing is claimed outside the stated bounds; riptide_cpp, numpy, numba, pandas and pyarrow as installed are trusted.")
TECH = {
    "default": "explicit enumeration (bounded model checking of the real code) of all inputs/options up to a bound against a reference model",
    "hist": "explicit-state exploration of all operation histories up to a depth on the real objects against a reference model",
}
HIST = {"C01", "C07", "C10", "C17", "C25"}
NA = {}


def main():
    built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(H, "mc", "props")) if f.startswith("c") and f.endswith(".py"))
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in built:
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json",
                               technique=TECH["hist" if i in HIST else "default"], level="model_checking", level_note=NOTE.format(id=i)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 tools/setup_check.py", checks=checks, not_applicable=na,
             notes="All checks import riptable from /repo's working tree in fresh processes with a private bytecode/numba cache; there is no build step. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)


main()
